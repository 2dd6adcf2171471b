B, L, CMD, I, F, D, S, CM, SER = "src/builder.rs", "src/lib.rs", "src/cm/cmd.rs", "src/builder/index.rs", "src/builder/features.rs", "src/cm/de.rs", "src/pkgspec.rs", "src/cm.rs", "src/cm/ser.rs"
CASES = []


def c(n, p, *e):
    CASES.append(dict(n=n, p=p, e=list(e)))


# --- Kid
c("fr-comp-helper", None, (L, """    pub fn name(&self) -> &str {
        let (s, e) = self.components[0];
        &self.repr[s..e]
    }
""", """    pub fn name(&self) -> &str {
        self.component(0)
    }

    fn component(&self, which: usize) -> &str {
        let (start, end) = self.components[which];
        &self.repr[start..end]
    }
"""), (L, """        let (s, e) = self.components[1];
        &self.repr[s..e]""", """        self.component(1)"""), (L, """        let (s, e) = self.components[2];
        &self.repr[s..e]""", """        self.component(2)"""))
c("fr-kid-cmp-then", None, (L, """        for (ar, br) in self.components.into_iter().zip(o.components) {
            let ord = a[ar.0..ar.1].cmp(&b[br.0..br.1]);
            if ord != std::cmp::Ordering::Equal {
                return ord;
            }
        }

        std::cmp::Ordering::Equal""", """        let _ = (a, b);
        self.name()
            .cmp(o.name())
            .then_with(|| self.version().cmp(o.version()))
            .then_with(|| self.source().cmp(o.source()))"""))
c("fr-kid-cmp-tuple", None, (L, """        for (ar, br) in self.components.into_iter().zip(o.components) {
            let ord = a[ar.0..ar.1].cmp(&b[br.0..br.1]);
            if ord != std::cmp::Ordering::Equal {
                return ord;
            }
        }

        std::cmp::Ordering::Equal""", """        let _ = (a, b);
        (self.name(), self.version(), self.source()).cmp(&(o.name(), o.version(), o.source()))"""))
c("fr-kid-cmp-nosource", "C21", (L, """        for (ar, br) in self.components.into_iter().zip(o.components) {""", """        for (ar, br) in self.components.into_iter().zip(o.components).take(2) {"""))
c("fr-kid-cmp-semver", "C21", (L, """        let a = &self.repr;
        let b = &o.repr;
""", """        let a = &self.repr;
        let b = &o.repr;
        if self.name() == o.name() {
            if let (Ok(x), Ok(y)) = (semver::Version::parse(self.version()), semver::Version::parse(o.version())) {
                if x != y {
                    return x.cmp(&y);
                }
            }
        }
"""))
c("fr-kid-eq-parts", None, (L, """        self.cmp(other) == std::cmp::Ordering::Equal
""", """        self.name() == other.name() && self.version() == other.version() && self.source() == other.source()
"""))
c("fr-kid-eq-nover", "C21", (L, """        self.cmp(other) == std::cmp::Ordering::Equal
""", """        self.name() == other.name() && self.source() == other.source()
"""))
c("fr-kid-hash-repr", "C21", (L, """        self.name().hash(state);
        self.version().hash(state);
        self.source().hash(state);
""", """        self.repr.hash(state);
"""))
c("fr-kid-hash-less", None, (L, """        self.name().hash(state);
        self.version().hash(state);
        self.source().hash(state);
""", """        (self.name(), self.version(), self.source()).hash(state);
"""))
c("fr-pid-split", None, (L, """                let name = (0, repr.find(' ')?);
                let version = (name.1 + 1, repr[name.1 + 1..].find(' ')? + name.1 + 1);
""", """                let first = repr.find(' ')?;
                let second = first + 1 + repr[first + 1..].find(' ')?;
                let name = (0, first);
                let version = (first + 1, second);
"""))
c("fr-pid-source-match", None, (L, """let source = (version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1));""", """let source_end = match repr.rfind('#') {
                    Some(hash) => hash,
                    None => repr.len() - 1,
                };
                let source = (version.1 + 2, source_end);"""))
c("fr-pid-find-hash", "C22", (L, """let source = (version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1));""", """let source = (version.1 + 2, repr.find('#').unwrap_or(repr.len() - 1));"""))
c("fr-pid-first-hash", None, (L, """                let mut vmn = repr.rfind('#')?;""", """                let mut vmn = repr.find('#')?;"""))
c("fr-pid-first-slash", None, (L, """let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);""", """let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin).min(vmn);
                        let begin = begin.max(1);"""))
c("fr-pid-at-rfind", None, (L, """                    if let Some(split) = repr[vmn..].find('@') {""", """                    if let Some(split) = repr[vmn..].rfind('@') {"""))
c("fr-pid-at-split", None, (L, """                    if let Some(split) = repr[vmn..].find('@') {
                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
                    } else {
                        ((begin, end), (vmn + 1, repr.len()))
                    }
""", """                    match repr[vmn..].find('@').map(|split| split + vmn) {
                        Some(at) => ((vmn + 1, at), (at + 1, repr.len())),
                        None => ((begin, end), (vmn + 1, repr.len())),
                    }
"""))
# --- DepKind / Edge
c("fr-dk-from", None, (L, """    fn eq(&self, other: &DK) -> bool {
        matches!(
            (self, *other),
            (Self::Normal, DK::Normal) | (Self::Build, DK::Build) | (Self::Dev, DK::Development)
        )
    }""", """    fn eq(&self, other: &DK) -> bool {
        *self == Self::from(*other)
    }"""))
# --- Krates
c("fr-krates-loop", None, (L, """            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = &node.weight {
                    Some(krate)
                } else {
                    None
                }
            })
    }""", """            .filter_map(move |node| match &node.weight {
                Node::Krate { krate, .. } => Some(krate),
                Node::Feature { .. } => None,
            })
    }"""))
c("fr-krates-take", None, (L, """        self.graph.raw_nodes()[..self.krates_end]
            .iter()
            .filter_map(move |node| {""", """        self.graph.raw_nodes()
            .iter()
            .take(self.krates_end)
            .filter_map(move |node| {"""))
c("fr-krates-weights", None, (L, """        self.graph.raw_nodes()[..self.krates_end]
            .iter()
            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = &node.weight {""", """        self.graph
            .node_weights()
            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = node {"""))
c("fr-krates-weights-dedup", "C20", (L, """        self.graph.raw_nodes()[..self.krates_end]
            .iter()
            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = &node.weight {""", """        let mut last: Option<&str> = None;
        self.graph
            .node_weights()
            .filter_map(move |node| {
                if let Node::Krate { krate, id, .. } = node {
                    if last.replace(id.name()) == Some(id.name()) {
                        return None;
                    }"""))
c("fr-getdeps-idx", None, (L, """            .map(move |edge| {
                let krate = &self.graph[edge.target()];
                (krate, edge.weight())
            })""", """            .filter_map(move |edge| {
                self.graph.node_weight(edge.target()).map(|node| (node, edge.weight()))
            })"""))
c("fr-dd-queue", None, (L, """        let mut direct_dependencies = Vec::new();
        let mut stack = vec![nid];
        let mut visited = std::collections::BTreeSet::new();

        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                match &graph[edge.target()] {
                    Node::Krate { krate, .. } => {
                        if visited.insert(edge.target()) {
                            direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }
        }
""", """        let mut direct_dependencies = Vec::new();
        let mut stack = vec![nid];
        let mut visited = std::collections::HashSet::new();

        while let Some(nid) = stack.pop() {
            for edge in graph.edges(nid) {
                let target = edge.target();
                if !visited.insert(target) {
                    continue;
                }
                if let Node::Krate { krate, .. } = &graph[target] {
                    direct_dependencies.push(DirectDependency {
                        krate,
                        node_id: target,
                        edge_id: edge.id(),
                    });
                } else {
                    stack.push(target);
                }
            }
        }
"""))
c("fr-rd-helper", None, (L, """        dep_mapping
            .get(dep_index)
            .copied()
            .flatten()
            .and_then(|nid| {
                let Node::Krate { krate, .. } = &self.graph[nid] else {
                    return None;
                };
                Some(krate)
            })""", """        let resolved = (*dep_mapping.get(dep_index)?)?;
        match &self.graph[resolved] {
            Node::Krate { krate, .. } => Some(krate),
            Node::Feature { .. } => None,
        }"""))
c("fr-rd-own", "C14", (L, """            .and_then(|nid| {
                let Node::Krate { krate, .. } = &self.graph[nid] else {
                    return None;
                };""", """            .and_then(|target| {
                let Node::Krate { krate, .. } = &self.graph[nid.max(target)] else {
                    return None;
                };"""))
c("fr-nid-key", None, (L, """            .binary_search_by(|rn| {
                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })
            .ok()
            .map(NodeId::new)""", """            .iter()
            .position(|rn| matches!(&rn.weight, Node::Krate { id, .. } if id == kid))
            .map(NodeId::new)"""))
c("fr-nid-match", None, (L, """            .ok()
            .map(NodeId::new)
    }""", """            .map_or(None, |found| Some(NodeId::new(found)))
    }"""))
c("fr-nid-name", "C10", (L, """                    id.cmp(kid)
                } else {
                    unreachable!();""", """                    id.name().cmp(kid.name()).then_with(|| id.version().cmp(kid.version()))
                } else {
                    unreachable!();"""))
c("fr-members-map", None, (L, """            .filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))""", """            .filter_map(move |pid| self.node_for_kid(pid))"""))
c("fr-members-flat", None, (L, """            .filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))""", """            .flat_map(move |pid| self.nid_for_kid(pid))
            .map(move |ind| &self.graph[ind])"""))
c("fr-members-skip-noroot", "C20", (L, """            .filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))""", """            .filter_map(move |pid| self.nid_for_kid(pid).filter(|ind| self.graph.edges(*ind).next().is_some()).map(|ind| &self.graph[ind]))"""))
c("fr-getnode-early", None, (L, """        self.nid_for_kid(kid).and_then(|nid| {
            if let Some(feat) = feature {
                self.graph
                    .edges_directed(nid, Direction::Incoming)
                    .find_map(|edge| {
                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {
                            if *krate_index == nid && name == feat {
                                return Some((edge.source(), &self.graph[edge.source()]));
                            }
                        }

                        None
                    })
            } else {
                Some((nid, &self.graph[nid]))
            }
        })""", """        let nid = self.nid_for_kid(kid)?;
        let Some(feat) = feature else {
            return Some((nid, &self.graph[nid]));
        };

        for edge in self.graph.edges_directed(nid, Direction::Incoming) {
            let source = edge.source();
            let node = &self.graph[source];
            if let Node::Feature { krate_index, name } = node {
                if *krate_index == nid && name == feat {
                    return Some((source, node));
                }
            }
        }

        None"""))
c("fr-features-match", None, (L, """        self.node_for_kid(kid).map(|node| {
            if let Node::Krate { features, .. } = node {
                features
            } else {
                unreachable!()
            }
        })""", """        match self.node_for_kid(kid)? {
            Node::Krate { features, .. } => Some(features),
            Node::Feature { .. } => unreachable!("kids always refer to crates"),
        }"""))
c("fr-filt-fn", None, (L, """                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };
""", """                if matches!(edge.weight(), Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } if *kind == filter) {
                    continue;
                }
"""))
c("fr-filt-starts", None, (L, """        let mut stack: Vec<_> = self
            .workspace_members
            .iter()
            .filter_map(|pid| self.nid_for_kid(pid))
            .collect();
        let mut visited = std::collections::BTreeSet::new();

        while""", """        let mut stack: Vec<_> = Vec::with_capacity(self.workspace_members.len());
        for pid in &self.workspace_members {
            if let Some(nid) = self.nid_for_kid(pid) {
                stack.push(nid);
            }
        }
        let mut visited = std::collections::BTreeSet::new();

        while"""))
c("fr-filt-depfeat", "C18", (L, """                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}""", """                    Edge::Dep { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::DepFeature { .. } | Edge::Feature => {}"""))
c("fr-filt-mark-members", "C18", (L, """        let mut visited = std::collections::BTreeSet::new();

        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                match edge.weight() {""", """        let mut visited = std::collections::BTreeSet::new();
        visited.extend(stack.iter().copied());
        visited.extend(graph.node_indices().skip(self.krates_end).filter(|n| graph.edges(*n).next().is_none()));
        stack.truncate(1);

        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                match edge.weight() {"""))
c("fr-search-shared", None, (L, """        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];

        let name = name.into();

        raw_nodes
            .iter()
            .enumerate()
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name && req.matches(krate.version()) {
                        return Some(KrateMatch {
                            node_id: NodeId::new(index),
                            krate,
                            kid: id,
                        });
                    }
                }

                None
            })
    }""", """        self.krates_by_name(name).filter(move |found| req.matches(found.krate.version()))
    }"""))
c("fr-by-name-idx", None, (L, """                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {
                        return Some(KrateMatch {
                            node_id: NodeId::new(index),
                            krate,
                            kid: id,
                        });
                    }
                }

                None
            })
    }
}""", """                let Node::Krate { krate, id, .. } = &node.weight else {
                    return None;
                };
                (krate.name() == name).then(|| KrateMatch {
                    node_id: NodeId::new(index),
                    krate,
                    kid: id,
                })
            })
    }
}"""))
c("fr-by-name-skip", "C19", (L, """        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];

        let name = name.into();

        raw_nodes
            .iter()
            .enumerate()
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {""", """        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];

        let name = name.into();

        raw_nodes
            .iter()
            .skip_while({
                let name = name.clone();
                move |node| matches!(&node.weight, Node::Krate { krate, .. } if krate.name() != name)
            })
            .enumerate()
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {"""))
c("fr-targets-eq", None, (L, """    match (target, other) {
        (None, None) => true,
        (Some(a), Some(b)) => a.inner.eq(b),
        _ => false,
    }""", """    target.as_ref().map(|t| t.inner.as_str()) == other.as_deref()"""))
c("fr-targets-eq-none", "C06", (L, """        (None, None) => true,
        (Some(a), Some(b)) => a.inner.eq(b),""", """        (_, None) => true,
        (Some(a), Some(b)) => a.inner.eq(b),"""))
c("fr-mdtarget-if", None, (L, """        let cfg = inner
            .starts_with("cfg(")
            .then(|| cfg_expr::Expression::parse(&inner).ok())
            .flatten();""", """        let cfg = if inner.starts_with("cfg(") {
            cfg_expr::Expression::parse(&inner).ok()
        } else {
            None
        };"""))
# --- pkgspec
c("fr-spec-let", None, (S, """        if let Some(vers) = &self.version {
            if vers != &krate.version {
                return false;
            }
        }
""", """        if self.version.as_ref().is_some_and(|vers| *vers != krate.version) {
            return false;
        }
"""))
c("fr-spec-match-url", None, (S, """        let Some((url, src)) = self
            .url
            .as_ref()
            .zip(krate.source.as_ref().map(|s| s.repr.as_str()))
        else {
            return true;
        };
""", """        let (url, src) = match (&self.url, &krate.source) {
            (Some(url), Some(source)) => (url, source.repr.as_str()),
            _ => return true,
        };
"""))
c("fr-spec-nosource-false", "C24", (S, """        else {
            return true;
        };

        let begin""", """        else {
            return self.url.is_none() || self.version.is_none();
        };

        let begin"""))
c("fr-spec-split", None, (S, """        let begin = src.find('+').map_or(0, |i| i + 1);
        let end = src.find('?').or_else(|| src.find('#')).unwrap_or(src.len());

        url == &src[begin..end]""", """        let begin = match src.find('+') {
            Some(plus) => plus + 1,
            None => 0,
        };
        let end = src
            .find('?')
            .or_else(|| src.find('#'))
            .unwrap_or_else(|| src.len());

        src[begin..end] == **url"""))
c("fr-spec-cmp-prec", "C24", (S, """            if vers != &krate.version {""", """            if vers.cmp_precedence(&krate.version).is_ne() {"""))
c("fr-spec-all", None, (S, """                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                    .is_some()
                {
                    Err(Error::InvalidPkgSpec(
                        "found an invalid character for the package name",
                    ))
                } else {
                    Ok(n.to_owned())
                }""", """                let valid = n
                    .chars()
                    .all(|c| c == '-' || c == '_' || c.is_ascii_alphanumeric());
                if !valid {
                    return Err(Error::InvalidPkgSpec(
                        "found an invalid character for the package name",
                    ));
                }
                Ok(n.to_owned())"""))
c("fr-spec-alnum", "C23", (S, """!c.is_ascii_alphanumeric())""", """!c.is_alphanumeric())"""))
c("fr-spec-colon-split", None, (S, """                    match nv.find([':', '@']) {
                        Some(ind) => {
                            if ind == nv.len() - 1 {""", """                    match nv.find(|c: char| c == ':' || c == '@') {
                        Some(ind) => {
                            if ind + 1 == nv.len() {"""))
c("fr-spec-rcolon", "C23", (S, """                    match nv.find([':', '@']) {""", """                    match nv.rfind([':', '@']) {"""))
c("fr-spec-slashend", "C23", (S, """                    if url.ends_with('/') {""", """                    if url.ends_with("//") {"""))
# --- features
c("fr-feat-prefix", None, (F, """        let kind = if f.starts_with("dep:") {
            FeatureKind::Krate
        } else if let Some(ind) = f.find("?/") {
            FeatureKind::Weak(ind)
        } else if let Some(ind) = f.find('/') {
            FeatureKind::Strong(ind)
        } else {
            FeatureKind::Simple
        };
""", """        let kind = match (f.strip_prefix("dep:"), f.find("?/"), f.find('/')) {
            (Some(_), _, _) => FeatureKind::Krate,
            (None, Some(ind), _) => FeatureKind::Weak(ind),
            (None, None, Some(ind)) => FeatureKind::Strong(ind),
            (None, None, None) => FeatureKind::Simple,
        };
"""))
c("fr-feat-rslash", "C25", (F, """        } else if let Some(ind) = f.find('/') {""", """        } else if let Some(ind) = f.rfind('/') {"""))
c("fr-feat-weak-after", "C25", (F, """        } else if let Some(ind) = f.find("?/") {
            FeatureKind::Weak(ind)
        } else if let Some(ind) = f.find('/') {
            FeatureKind::Strong(ind)""", """        } else if let Some(ind) = f.find('/') {
            if f[..ind].contains('?') {
                FeatureKind::Weak(ind - 1)
            } else {
                FeatureKind::Strong(ind)
            }"""))
# --- index
c("fr-index-entry", None, (I, """        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }""", """        krate
            .features
            .entry(ikey.clone())
            .or_insert_with(|| ivalue.clone());"""))
c("fr-index-merge", "C34", (I, """        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }""", """        let vals = krate.features.entry(ikey.clone()).or_default();
        for v in ivalue {
            if !vals.contains(v) {
                vals.push(v.clone());
            }
        }"""))
c("fr-index-empty", "C34", (I, """        if !krate.features.contains_key(ikey) {""", """        if krate.features.get(ikey).is_none_or(|v| v.is_empty()) {"""))
c("fr-index-let", None, (I, """        self.cache.get(name).and_then(|ik| {
            ik.as_ref().and_then(|ik| {
                ik.versions
                    .iter()
                    .find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))
            })
        })""", """        let krate = self.cache.get(name)?.as_ref()?;
        krate
            .versions
            .iter()
            .find(|ikv| ikv.version == *version)
            .map(|ikv| &ikv.features)"""))
c("fr-index-dep-loop", None, (I, """    let missing_deps: Vec<_> = krate
        .features
        .values()
        .flat_map(|sf| sf.iter())
        .filter_map(|sf| {
            let pf = crate::ParsedFeature::from(sf.as_str());

            if let super::features::Feature::Simple(simple) = pf.feat() {
                if krate.features.contains_key(simple) {
                    None
                } else {
                    Some(simple.to_owned())
                }
            } else {
                None
            }
        })
        .collect();
""", """    let mut missing_deps = Vec::new();
    for values in krate.features.values() {
        for value in values {
            if let super::features::Feature::Simple(simple) = crate::ParsedFeature::from(value.as_str()).feat() {
                if !krate.features.contains_key(simple) {
                    missing_deps.push(simple.to_owned());
                }
            }
        }
    }
"""))
c("fr-index-strong", "C34", (I, """            if let super::features::Feature::Simple(simple) = pf.feat() {""", """            if let super::features::Feature::Simple(simple) | super::features::Feature::Krate(simple) = pf.feat() {"""))
# --- cmd
c("fr-cmd-push", None, (CMD, """        if self.no_deps {
            cmd.arg("--no-deps");
        }
""", """        let flags = [
            (self.no_deps, "--no-deps"),
            (self.all_features, "--all-features"),
            (self.no_default_features, "--no-default-features"),
        ];
        cmd.args(flags.iter().filter(|(set, _)| *set).map(|(_, flag)| flag));
"""), (CMD, """        if self.all_features {
            cmd.arg("--all-features");
        }
        if self.no_default_features {
            cmd.arg("--no-default-features");
        }
""", ""))
c("fr-cmd-manifest", None, (CMD, """            cmd.arg("--manifest-path").arg(manifest_path.as_os_str());""", """            cmd.args(["--manifest-path".as_ref(), manifest_path.as_os_str()]);"""))
c("fr-cmd-feat-loop", "C26", (CMD, """            cmd.arg("--features").arg(self.features.join(","));""", """            for feature in &self.features {
                cmd.arg("--features").arg(feature.trim_start_matches("dep:"));
            }"""))
c("fr-cmd-env", "C26", (CMD, """        cmd.envs(&self.env);
""", """        cmd.env_clear();
        cmd.envs(&self.env);
"""))
c("fr-cmd-env-loop", None, (CMD, """        cmd.envs(&self.env);
""", """        for (key, val) in &self.env {
            cmd.env(key, val);
        }
"""))
c("fr-cmd-other-loop", None, (CMD, """        cmd.args(&self.other_options);
""", """        for option in &self.other_options {
            cmd.arg(option);
        }
"""))
c("fr-cmd-cargo-match", None, (CMD, """        let cargo = self
            .cargo_path
            .clone()
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())
            .unwrap_or_else(|| PathBuf::from("cargo"));""", """        let cargo = match &self.cargo_path {
            Some(path) => path.clone(),
            None => match std::env::var("CARGO") {
                Ok(path) => PathBuf::from(path),
                Err(_) => PathBuf::from("cargo"),
            },
        };"""))
c("fr-exec-match", None, (CMD, """        if !output.status.success() {
            return Err(Error::CargoMetadata {
                stderr: String::from_utf8(output.stderr)?,
            });
        }

        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)""", """        if output.status.success() {
            let stdout = std::str::from_utf8(&output.stdout)?;
            match stdout.lines().find(|line| line.starts_with('{')) {
                Some(json) => Self::parse(json),
                None => Err(Error::NoJson),
            }
        } else {
            let stderr = String::from_utf8(output.stderr)?;
            Err(Error::CargoMetadata { stderr })
        }"""))
c("fr-exec-code", "C27", (CMD, """        if !output.status.success() {""", """        if output.status.code().is_some_and(|c| c != 0) {"""))
c("fr-exec-last", "C27", (CMD, """            .find(|line| line.starts_with('{'))""", """            .filter(|line| line.starts_with('{')).last()"""))
c("fr-exec-lossy", "C27", (CMD, """        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()""", """        let stdout = String::from_utf8_lossy(&output.stdout);
        let stdout = stdout
            .lines()"""))
