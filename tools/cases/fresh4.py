"""More edits on the properties with the fewest cases so far"""
B, L, F, I, C = "src/builder.rs", "src/lib.rs", "src/builder/features.rs", "src/builder/index.rs", "src/cm/cmd.rs"
CASES = []


def c(n, p, *e, **k):
    CASES.append(dict(n=n, p=p, e=[x if isinstance(x[0], str) and x[0].startswith("src/") else (B,) + tuple(x) for x in e], **k))


# C12
POS = """                let Some((_parent, sub_features)) = enabled
                    .iter()
                    .position(|(k, _)| *k == feat)
                    .map(|i| enabled.swap_remove(i))
                else {"""
c("y4-tree-take", None, (POS, """                let Some(sub_features) = enabled
                    .iter_mut()
                    .find(|(k, _)| *k == feat)
                    .map(|(_, sf)| std::mem::take(sf))
                else {"""))
c("y4-tree-noremove", "C12", (POS, """                let Some((_parent, sub_features)) = enabled
                    .iter()
                    .find(|(k, _)| *k == feat)
                else {"""), ("            let mut enabled = features.graph;", "            let enabled = features.graph;"),
  ("for FeatureEdge { kid, name } in sub_features {", "for FeatureEdge { kid, name } in sub_features {"))
c("y4-tree-remove", None, ("                    .map(|i| enabled.swap_remove(i))", "                    .map(|i| enabled.remove(i))"))
# C10
c("y4-rev", "C10", ("        for (id, krate) in packages {\n            let Some(pn)", "        for (id, krate) in packages.into_iter().rev() {\n            let Some(pn)"))
c("y4-roots-first", "C10", ("        for (id, krate) in packages {\n            let Some(pn)", "        packages.sort_by_key(|(id, _)| !roots.contains(id));\n        for (id, krate) in packages {\n            let Some(pn)"))
c("y4-end-len", None, ("        let krates_end = graph.node_count();\n", "        let krates_end = graph.raw_nodes().len();\n"))
c("y4-lookup-full", "C10", (L, """        self.graph.raw_nodes()[..self.krates_end]
            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })""", """        self.graph.raw_nodes()[..self.krates_end]
            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.repr.cmp(&kid.repr)
                } else {
                    unreachable!();
                }
            })"""))
c("y4-lookup-partition", None, (L, """        self.graph.raw_nodes()[..self.krates_end]
            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })
            .ok()
            .map(NodeId::new)""", """        let nodes = &self.graph.raw_nodes()[..self.krates_end];
        let at = nodes.partition_point(|rn| match &rn.weight {
            Node::Krate { id, .. } => id < kid,
            Node::Feature { .. } => unreachable!(),
        });
        match &nodes.get(at)?.weight {
            Node::Krate { id, .. } if id == kid => Some(NodeId::new(at)),
            _ => None,
        }"""))
c("y4-lookup-partition-le", "C10", (L, """        self.graph.raw_nodes()[..self.krates_end]
            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })
            .ok()
            .map(NodeId::new)""", """        let nodes = &self.graph.raw_nodes()[..self.krates_end];
        let at = nodes.partition_point(|rn| match &rn.weight {
            Node::Krate { id, .. } => id < kid,
            Node::Feature { .. } => unreachable!(),
        });
        match &nodes.get(at)?.weight {
            Node::Krate { id, .. } if id.name() == kid.name() && id.version() == kid.version() => Some(NodeId::new(at)),
            _ => None,
        }"""))
# C02
c("y4-filter-source", "C02", ("                on_filter.filtered(krate);\n                continue;", "                if krate.source.is_some() {\n                    on_filter.filtered(krate);\n                }\n                continue;"))
c("y4-filter-leaf", "C02", ("            let Some(pn) = dep_edge_map.get(&id) else {", "            let Some(pn) = dep_edge_map.get(&id).filter(|pn| pn.is_root || !pn.deps.is_empty()) else {"))
c("y4-filter-partition", None, ("        for (id, krate) in packages {\n            let Some(pn) = dep_edge_map.get(&id) else {\n                on_filter.filtered(krate);\n                continue;\n            };\n", """        let (kept, dropped): (Vec<_>, Vec<_>) = packages
            .into_iter()
            .partition(|(id, _)| dep_edge_map.contains_key(id));

        for (_, krate) in dropped {
            on_filter.filtered(krate);
        }

        for (id, krate) in kept {
            let pn = &dep_edge_map[&id];
"""))
c("y4-dup-pkgs", "C02", ("        // crates in the graph so that we don't need to access disk again\n", "        packages.dedup_by(|a, b| a.0.name() == b.0.name() && a.0.version() == b.0.version());\n        // crates in the graph so that we don't need to access disk again\n"))
# C13
c("y4-noroot-after", None, ("        if dep_edge_map.is_empty() {\n            return Err(Error::NoRootKrates);\n        }\n", "        if dep_edge_map.len() == 0 {\n            return Err(Error::NoRootKrates);\n        }\n"))
c("y4-noroot-roots", "C13", ("        if dep_edge_map.is_empty() {", "        if dep_edge_map.is_empty() && !roots.is_empty() {"))
# C35
c("y4-static", "C35", ("            let targets = &targets;\n", """            let targets = &targets;
            static SEEN: std::sync::Mutex<BTreeMap<String, bool>> = std::sync::Mutex::new(BTreeMap::new());
            let cached = |inner: &str, f: &dyn Fn() -> bool| -> bool {
                let mut seen = SEEN.lock().unwrap();
                *seen.entry(inner.to_owned()).or_insert_with(f)
            };
"""), ("""                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))""", """                                    cached(&cfg.inner, &|| targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred))))"""))
c("y4-ptr", "C35", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n        for n in &mut nodes {\n            n.deps.sort_by_key(|d| d.name.as_ptr() as usize);\n        }\n"))
c("y4-hash-edges", "C35", ("            deps: BTreeMap<&'p Kid, KrateDependency>,", "            deps: std::collections::HashMap<&'p Kid, KrateDependency>,"), ("                deps: BTreeMap::new(),\n            });\n\n            let mut deps", "                deps: std::collections::HashMap::new(),\n            });\n\n            let mut deps"))
c("y4-parallel", "C35", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n        if std::thread::available_parallelism().map_or(1, |n| n.get()) == 1 {\n            nodes.dedup_by(|a, b| a.id.name() == b.id.name());\n        }\n"))
c("y4-time", "C35", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n        let _started = std::time::Instant::now();\n"))
c("y4-exists", "C35", ("            if exclude.iter().any(|exc| exc.matches(krate)) {", "            if exclude.iter().any(|exc| exc.matches(krate)) || !krate.manifest_path.exists() && krate.source.is_none() && !is_in_workspace {"))
c("y4-write", "C35", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n        let _ = std::fs::write(std::env::temp_dir().join(\"krates.log\"), format!(\"{}\", nodes.len()));\n"))
# C36
c("y4-asmut", "C36", (L, "/// A direct dependency of a crate\n", "impl<N, E> AsMut<petgraph::Graph<Node<N>, E>> for Krates<N, E> {\n    fn as_mut(&mut self) -> &mut petgraph::Graph<Node<N>, E> {\n        &mut self.graph\n    }\n}\n\n/// A direct dependency of a crate\n"))
c("y4-weights-mut", "C36", (L, "/// A direct dependency of a crate\n", "impl<N, E> Krates<N, E> {\n    /// The crates\n    pub fn krates_mut(&mut self) -> impl Iterator<Item = &mut Node<N>> {\n        self.graph.node_weights_mut()\n    }\n}\n\n/// A direct dependency of a crate\n"))
c("y4-retain", "C36", (L, "/// A direct dependency of a crate\n", "impl<N, E> Krates<N, E> {\n    /// Keeps only some crates\n    pub fn retain(&mut self, mut f: impl FnMut(&Node<N>) -> bool) {\n        self.graph.retain_nodes(|g, n| f(&g[n]));\n    }\n}\n\n/// A direct dependency of a crate\n"))
c("y4-extend", "C36", (L, "/// A direct dependency of a crate\n", "impl<N, E> Extend<Kid> for Krates<N, E> {\n    fn extend<T: IntoIterator<Item = Kid>>(&mut self, it: T) {\n        self.workspace_members.extend(it);\n    }\n}\n\n/// A direct dependency of a crate\n"))
c("y4-reader", None, (L, "/// A direct dependency of a crate\n", "impl<N, E> Krates<N, E> {\n    /// The number of features\n    pub fn feature_count(&self) -> usize {\n        self.graph.node_count() - self.krates_end\n    }\n}\n\n/// A direct dependency of a crate\n"))
# C19
c("y4-search-first", "C19", (L, "                    if krate.name() == name && req.matches(krate.version()) {", "                    if krate.name() == name && (req.comparators.is_empty() || req.matches(krate.version())) {"))
c("y4-search-trim", "C19", (L, "        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];\n\n        let name = name.into();\n\n        raw_nodes\n            .iter()\n            .enumerate()\n            .filter_map(move |(index, node)| {\n                if let Node::Krate { krate, id, .. } = &node.weight {\n                    if krate.name() == name {", "        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];\n\n        let name = name.into().replace('_', \"-\");\n\n        raw_nodes\n            .iter()\n            .enumerate()\n            .filter_map(move |(index, node)| {\n                if let Node::Krate { krate, id, .. } = &node.weight {\n                    if krate.name() == name {"))
c("y4-search-members", "C19", (L, "                    if krate.name() == name && req.matches(krate.version()) {", "                    if krate.name() == name && (req.matches(krate.version()) || self.workspace_members.contains(id)) {"))
c("y4-search-pre", "C19", (L, "                    if krate.name() == name && req.matches(krate.version()) {", "                    if krate.name() == name && krate.version().pre.is_empty() && req.matches(krate.version()) {"))
c("y4-search-let", None, (L, "                if let Node::Krate { krate, id, .. } = &node.weight {\n                    if krate.name() == name && req.matches(krate.version()) {\n                        return Some(KrateMatch {\n                            node_id: NodeId::new(index),\n                            krate,\n                            kid: id,\n                        });\n                    }\n                }\n\n                None", "                let Node::Krate { krate, id, .. } = &node.weight else {\n                    return None;\n                };\n                (krate.name() == name && req.matches(krate.version())).then(|| KrateMatch {\n                    node_id: NodeId::new(index),\n                    krate,\n                    kid: id,\n                })"))
# C20
c("y4-enabled-cond", "C20", (L, "        self.node_for_kid(kid).map(|node| {\n            if let Node::Krate { features, .. } = node {\n                features\n            } else {\n                unreachable!()\n            }\n        })", "        self.node_for_kid(kid).and_then(|node| match node {\n            Node::Krate { features, .. } if !features.is_empty() => Some(features),\n            _ => None,\n        })"))
c("y4-enabled-match", None, (L, "        self.node_for_kid(kid).map(|node| {\n            if let Node::Krate { features, .. } = node {\n                features\n            } else {\n                unreachable!()\n            }\n        })", "        match self.node_for_kid(kid)? {\n            Node::Krate { features, .. } => Some(features),\n            Node::Feature { .. } => unreachable!(),\n        }"))
c("y4-getnode-filter", None, (L, "                self.graph\n                    .edges_directed(nid, Direction::Incoming)\n                    .find_map(|edge| {\n                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {\n                            if *krate_index == nid && name == feat {\n                                return Some((edge.source(), &self.graph[edge.source()]));\n                            }\n                        }\n\n                        None\n                    })", "                self.graph\n                    .neighbors_directed(nid, Direction::Incoming)\n                    .map(|fid| (fid, &self.graph[fid]))\n                    .find(|(_, node)| matches!(node, Node::Feature { krate_index, name } if *krate_index == nid && name == feat))"))
c("y4-getnode-raw", "C20", (L, "                self.graph\n                    .edges_directed(nid, Direction::Incoming)\n                    .find_map(|edge| {\n                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {\n                            if *krate_index == nid && name == feat {\n                                return Some((edge.source(), &self.graph[edge.source()]));\n                            }\n                        }\n\n                        None\n                    })", "                self.graph\n                    .edges_directed(nid, Direction::Incoming)\n                    .find_map(|edge| {\n                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {\n                            if *krate_index == nid && name.eq_ignore_ascii_case(feat) {\n                                return Some((edge.source(), &self.graph[edge.source()]));\n                            }\n                        }\n\n                        None\n                    })"))
c("y4-members-sorted", "C20", (L, "            .filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))\n    }\n}", "            .map_while(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))\n    }\n}"))
# C03
c("y4-inws-dep", "C03", ("            let is_in_workspace = workspace_members.binary_search(pid).is_ok();\n", "            let is_in_workspace = is_root_crate(pid) || workspace_members.first() == Some(pid);\n"))
# C11
c("y4-members-unsorted", "C11", ("        workspace_members.sort();\n", "        workspace_members.sort_by(|a, b| a.name().cmp(b.name()));\n"))
c("y4-nodes-pushed", "C11", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n        if let Some(i) = root.as_ref().and_then(|r| nodes.iter().position(|n| &n.id == r)) {\n            let n = nodes.remove(i);\n            nodes.insert(0, n);\n        }\n"))
c("y4-sort-unstable", None, ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", "        nodes.sort_unstable_by(|a, b| a.id.cmp(&b.id));\n"))
c("y4-features-dedup", None, ("                features.sort();\n", "                features.sort_unstable();\n                features.dedup();\n"))
# C21
c("y4-kid-semver", "C21", (L, "        self.cmp(other) == std::cmp::Ordering::Equal\n", "        self.components == other.components && self.cmp(other) == std::cmp::Ordering::Equal\n"))
# C09
c("y4-edges-sorted", None, ("            // Attach an edge for each crate dependency, note that there might not\n", "            let feature_nodes = graph.node_count();\n            let _ = feature_nodes;\n            // Attach an edge for each crate dependency, note that there might not\n"))
c("y4-dep-direct-too", "C09", ("                    let attach_direct_edge = edge.features.is_empty();\n", "                    let attach_direct_edge = edge.features.is_empty() || edge.cfg.is_some();\n"))
c("y4-dep-kind-build", "C09", ("                            Edge::DepFeature {\n                                kind: edge.kind,\n                                cfg: edge.cfg.clone(),", "                            Edge::DepFeature {\n                                kind: edge.kind,\n                                cfg: edge.cfg.clone().filter(|c| c.starts_with(\"cfg(\")),"))
# C14
c("y4-map-first", "C14", ("                        dep_mapping[edge.dep_index] = Some(target_krate);", "                        dep_mapping[edge.dep_index].get_or_insert(target_krate);"))
c("y4-map-normal", "C14", ("                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {", "                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid]\n                        && edge.kind != DepKind::Dev\n                    {"))
c("mu-md-ends", "C04", (L, '            .starts_with("cfg(")', '            .ends_with("cfg(")'))
FS = '            .starts_with("cfg(")\n'
c("mu-md-contains", "C04", (L, FS, '            .contains(\'"\')\n'))
c("mu-md-has", None, (L, FS, '            .contains("cfg(")\n'))
c("mu-md-strip", None, (L, "            .starts_with(\"cfg(\")\n            .then(|| cfg_expr::Expression::parse(&inner).ok())\n            .flatten();", "            .strip_prefix(\"cfg(\")\n            .and_then(|_| cfg_expr::Expression::parse(&inner).ok());"))
c("mu-triple-ne", "C04", ("as_triple == triple", "as_triple != triple"))
c("mu-index-setter", "C34", ("        self.crates_io_index = Some(index_cache_build);\n        self", "        let _ = index_cache_build;\n        self"))
c("mu-index-fix", "C34", ("            for (_, krate) in &mut packages {\n                index::fix_features(&index, krate);\n            }\n", "            let _ = index;\n"))
c("mu-renames-insert", "C15", ("                    v.insert(i, (&pkg.version, &targ.name));\n", "                    let _ = i;\n"))
c("mu-renames-true", "C15", ("                    if pkg_name_equals(&rdep.name, feature_krate_name) {\n                        return true;\n                    }\n", "                    if pkg_name_equals(&rdep.name, feature_krate_name) {\n                    }\n"))
c("mu-opaque-ne", "C06", (".is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() == 3);", ".is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() != 3);"))
c("mu-map-while-feat", "C37", ("                    .filter_map(|feat| {\n                        // This _should_", "                    .map_while(|feat| {\n                        // This _should_"))
c("mu-map-while-sub", "C37", ("                            .filter_map(|sub_feat| {", "                            .map_while(|sub_feat| {"))
c("mu-roots-break", "C01", ("                // The root isn't resolved, so there is nothing to reach from it\n                continue;", "                // The root isn't resolved, so there is nothing to reach from it\n                break;"))
c("mu-visited-break", "C01", ("            if check(&feature_edge_map, pid, feature) {\n                continue;", "            if check(&feature_edge_map, pid, feature) {\n                break;"))
c("mu-excluded-break", "C01", ("            if exclude.iter().any(|exc| exc.matches(krate)) {\n                continue;", "            if exclude.iter().any(|exc| exc.matches(krate)) {\n                break;"))
c("mu-nodes-break", "C02", ("                on_filter.filtered(krate);\n                continue;", "                on_filter.filtered(krate);\n                break;"))
c("mu-node-feats-root", "C08", ("let features = if pn.is_root {", "let features = if !pn.is_root {"))
c("mu-edges-from-1", "C09", ("for srcind in 0..graph.node_count() {", "for srcind in 1..graph.node_count() {"))
c("mu-rdep-node", "C08", ("let rdep_node = get_rnode(&ndep.pkg);", "let rdep_node = get_rnode(pid);"))
c("mu-weak-contains-pid", "C05", ("if is_weak && !pn.deps.contains_key(&ndep.pkg) {", "if is_weak && !pn.deps.contains_key(pid) {"))
c("mu-weak-remove-pid", "C05", ("krate_features.pending_weak.remove(&ndep.pkg) {", "krate_features.pending_weak.remove(pid) {"))
c("mu-deps-entry-pid1", "C08", ("                        deps.entry(&ndep.pkg)\n", "                        deps.entry(pid)\n"))
c("mu-deps-entry-pid2", "C08", ("                    let feats = deps\n                        .entry(&ndep.pkg)\n", "                    let feats = deps\n                        .entry(pid)\n"))
c("mu-git-q", "C06", ("dgit.rfind('#').map_or(dgit, |end| &dgit[..end])", "dgit.rfind('?').map_or(dgit, |end| &dgit[..end])"))
c("mu-git-op", "C06", ("let dgit = if is_opaque {", "let dgit = if !is_opaque {"))
c("mu-links-map-while", "C37", (".filter_map(|(name, sf)| {", ".map_while(|(name, sf)| {"))
