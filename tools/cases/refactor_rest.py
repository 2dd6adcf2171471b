"""Edits outside build_with_metadata that keep the behaviour: every rule has to stay quiet"""
CASES = []


def k(n, f, *e):
    CASES.append(dict(n=n, p=None, e=[("src/" + f, o, w) for o, w in e]))


L, S, F, B, X = "lib.rs", "pkgspec.rs", "builder/features.rs", "builder.rs", "builder/index.rs"
# ---- lib.rs
k("krates-match", L, ("""                if let Node::Krate { krate, .. } = &node.weight {
                    Some(krate)
                } else {
                    None
                }
            })
    }

""", """                match &node.weight {
                    Node::Krate { krate, .. } => Some(krate),
                    Node::Feature { .. } => None,
                }
            })
    }

"""))
k("krates-take", L, ("""        self.graph.raw_nodes()[..self.krates_end]
            .iter()
            .filter_map(move |node| {
                if let""", """        self.graph
            .raw_nodes()
            .iter()
            .take(self.krates_end)
            .filter_map(move |node| {
                if let"""))
k("krates-weights", L, ("""        self.graph.raw_nodes()[..self.krates_end]
            .iter()
            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = &node.weight {""", """        self.graph.node_weights().take(self.krates_end)
            .filter_map(move |node| {
                if let Node::Krate { krate, .. } = node {"""))
k("getdeps-tuple", L, ("""                let krate = &self.graph[edge.target()];
                (krate, edge.weight())
""", """                (&self.graph[edge.target()], edge.weight())
"""))
k("getdeps-edges", L, ("""        self.graph
            .edges_directed(id, Direction::Outgoing)
            .map(move |edge| {
                let krate""", """        self.graph
            .edges(id)
            .map(move |edge| {
                let krate"""))
k("dd-collect", L, ("""                        if visited.insert(edge.target()) {
                            direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });
                        }
""", """                        let node_id = edge.target();
                        if !visited.insert(node_id) {
                            continue;
                        }
                        direct_dependencies.push(DirectDependency {
                            krate,
                            node_id,
                            edge_id: edge.id(),
                        });
"""))
k("dd-hoist", L, ("""                match &graph[edge.target()] {
                    Node::Krate { krate, .. } => {
                        if visited.insert(edge.target()) {
                            direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
""", """                let target = edge.target();
                if !visited.insert(target) {
                    continue;
                }
                match &graph[target] {
                    Node::Krate { krate, .. } => direct_dependencies.push(DirectDependency {
                        krate,
                        node_id: target,
                        edge_id: edge.id(),
                    }),
                    Node::Feature { .. } => stack.push(target),
                }
"""))
k("ddt-hoist", L, ("""                    Node::Feature { krate_index, .. } => {
                        if *krate_index == nid && visited.insert(edge.source()) {
                            stack.push(edge.source());
                        }
                    }
""", """                    Node::Feature { krate_index, .. } if *krate_index == nid => {
                        if visited.insert(edge.source()) {
                            stack.push(edge.source());
                        }
                    }
                    Node::Feature { .. } => {}
"""))
k("rd-match", L, ("""        dep_mapping
            .get(dep_index)
            .copied()
            .flatten()
            .and_then(|nid| {
                let Node::Krate { krate, .. } = &self.graph[nid] else {
                    return None;
                };
                Some(krate)
            })
""", """        let dep_nid = (*dep_mapping.get(dep_index)?)?;
        match &self.graph[dep_nid] {
            Node::Krate { krate, .. } => Some(krate),
            Node::Feature { .. } => None,
        }
"""))
k("rd-weight", L, ("""        if nid.index() >= self.krates_end {
            return None;
        }

        let Node::Krate { dep_mapping, .. } = &self.graph[nid] else {
            return None;
        };
""", """        let Some(Node::Krate { dep_mapping, .. }) = self.graph.node_weight(nid) else {
            return None;
        };
"""))
k("nid-match", L, ("""                if let Node::Krate { id, .. } = &rn.weight {
                    id.cmp(kid)
                } else {
                    unreachable!();
                }
            })
            .ok()
            .map(NodeId::new)
""", """                let Node::Krate { id, .. } = &rn.weight else {
                    unreachable!();
                };
                id.cmp(kid)
            })
            .ok()
            .map(|index| NodeId::new(index))
"""))
k("nfk-q", L, ("        self.nid_for_kid(kid).map(|nid| &self.graph[nid])\n", "        let nid = self.nid_for_kid(kid)?;\n        Some(&self.graph[nid])\n"))
k("getnode-q", L, ("""        self.nid_for_kid(kid).and_then(|nid| {
            if let Some(feat) = feature {
                self.graph
                    .edges_directed(nid, Direction::Incoming)
                    .find_map(|edge| {
                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {
                            if *krate_index == nid && name == feat {
                                return Some((edge.source(), &self.graph[edge.source()]));
                            }
                        }

                        None
                    })
            } else {
                Some((nid, &self.graph[nid]))
            }
        })
""", """        let nid = self.nid_for_kid(kid)?;
        let Some(feat) = feature else {
            return Some((nid, &self.graph[nid]));
        };
        for edge in self.graph.edges_directed(nid, Direction::Incoming) {
            let source = edge.source();
            let node = &self.graph[source];
            if let Node::Feature { krate_index, name } = node {
                if *krate_index == nid && name == feat {
                    return Some((source, node));
                }
            }
        }
        None
"""))
k("getnode-neigh", L, ("""                self.graph
                    .edges_directed(nid, Direction::Incoming)
                    .find_map(|edge| {
                        if let Node::Feature { krate_index, name } = &self.graph[edge.source()] {
                            if *krate_index == nid && name == feat {
                                return Some((edge.source(), &self.graph[edge.source()]));
                            }
                        }

                        None
                    })
""", """                self.graph
                    .neighbors_directed(nid, Direction::Incoming)
                    .find(|id| matches!(&self.graph[*id], Node::Feature { krate_index, name } if *krate_index == nid && name == feat))
                    .map(|id| (id, &self.graph[id]))
"""))
k("gef-match", L, ("""        self.node_for_kid(kid).map(|node| {
            if let Node::Krate { features, .. } = node {
                features
            } else {
                unreachable!()
            }
        })
""", """        match self.node_for_kid(kid)? {
            Node::Krate { features, .. } => Some(features),
            Node::Feature { .. } => unreachable!(),
        }
"""))
k("wm-nfk", L, (""".filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))""", """.filter_map(move |pid| self.node_for_kid(pid))"""))
k("kf-match", L, ("""                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };
""", """                if let Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } = edge.weight() {
                    if *kind == filter {
                        continue;
                    }
                }
"""))
k("kf-hoist", L, ("""                    Node::Krate { id, krate, .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }
""", """                    Node::Krate { id, krate, .. } => {
                        if visited.insert(edge.target()) {
                            filtered.insert(id, krate);
                            stack.push(edge.target());
                        }
                    }
                    Node::Feature { .. } => {
                        let target = edge.target();
                        if visited.insert(target) {
                            stack.push(target);
                        }
                    }
                }
            }
"""))
k("sm-helper", L, ("""                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name && req.matches(krate.version()) {
                        return Some(KrateMatch {
                            node_id: NodeId::new(index),
                            krate,
                            kid: id,
                        });
                    }
                }

                None
            })""", """                match &node.weight {
                    Node::Krate { krate, id, .. } if krate.name() == name && req.matches(krate.version()) => Some(KrateMatch {
                        node_id: NodeId::new(index),
                        krate,
                        kid: id,
                    }),
                    _ => None,
                }
            })"""))
k("sm-indices", L, ("""        let raw_nodes = &self.graph.raw_nodes()[0..self.krates_end];

        let name = name.into();

        raw_nodes
            .iter()
            .enumerate()
            .filter_map(move |(index, node)| {
                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name && req.matches(krate.version()) {
                        return Some(KrateMatch {
                            node_id: NodeId::new(index),""", """        let name = name.into();

        self.graph
            .node_references()
            .take(self.krates_end)
            .filter_map(move |(node_id, node)| {
                if let Node::Krate { krate, id, .. } = node {
                    if krate.name() == name && req.matches(krate.version()) {
                        return Some(KrateMatch {
                            node_id,"""), ("use petgraph::{", "use petgraph::visit::IntoNodeReferences;\nuse petgraph::{"))
k("kbn-split", L, ("""                if let Node::Krate { krate, id, .. } = &node.weight {
                    if krate.name() == name {
                        return Some(KrateMatch {
                            node_id: NodeId::new(index),
                            krate,
                            kid: id,
                        });
                    }
                }

                None
            })""", """                let Node::Krate { krate, id: kid, .. } = &node.weight else {
                    return None;
                };
                (krate.name() == name).then(|| KrateMatch {
                    krate,
                    kid,
                    node_id: NodeId::new(index),
                })
            })"""))
k("index-iflet", L, ("""        match &self.graph[id] {
            Node::Krate { krate, .. } => krate,
            Node::Feature { .. } => panic!("indexed outside of crate graph"),
        }
""", """        let Node::Krate { krate, .. } = &self.graph[id] else {
            panic!("indexed outside of crate graph");
        };
        krate
"""))
k("index-usize", L, ("""        match &self.graph.raw_nodes()[idx].weight {
            Node::Krate { krate, .. } => krate,
            Node::Feature { .. } => panic!("indexed outside of crate graph"),
        }
""", """        &self[NodeId::new(idx)]
"""))
k("mdtarget-if", L, ("""        let cfg = inner
            .starts_with("cfg(")
            .then(|| cfg_expr::Expression::parse(&inner).ok())
            .flatten();
        Self { inner, cfg }
""", """        let cfg = if inner.starts_with("cfg(") {
            cfg_expr::Expression::parse(&inner).ok()
        } else {
            None
        };
        Self { inner, cfg }
"""))
k("teq-zip", L, ("""        (Some(a), Some(b)) => a.inner.eq(b),
""", """        (Some(a), Some(b)) => a.inner == *b,
"""))
k("teq-asref", L, ("""    match (target, other) {
        (None, None) => true,
        (Some(a), Some(b)) => a.inner.eq(b),
        _ => false,
    }
""", """    target.as_ref().map(|t| t.inner.as_str()) == other.as_deref()
"""))
k("dk-eq", L, ("""        matches!(
            (self, *other),
            (Self::Normal, DK::Normal) | (Self::Build, DK::Build) | (Self::Dev, DK::Development)
        )
""", """        *self == Self::from(*other)
"""))
k("dk-display", L, ("""        match self {
            Self::Normal => Ok(()),
            Self::Build => f.write_str("build"),
            Self::Dev => f.write_str("dev"),
        }
""", """        let s = match self {
            Self::Normal => return Ok(()),
            Self::Build => "build",
            Self::Dev => "dev",
        };
        f.write_str(s)
"""))
k("kid-cmp-then", L, ("""        for (ar, br) in self.components.into_iter().zip(o.components) {
            let ord = a[ar.0..ar.1].cmp(&b[br.0..br.1]);
            if ord != std::cmp::Ordering::Equal {
                return ord;
            }
        }

        std::cmp::Ordering::Equal
""", """        let _ = (a, b);
        self.name()
            .cmp(o.name())
            .then_with(|| self.version().cmp(o.version()))
            .then_with(|| self.source().cmp(o.source()))
"""))
k("kid-cmp-match", L, ("""            let ord = a[ar.0..ar.1].cmp(&b[br.0..br.1]);
            if ord != std::cmp::Ordering::Equal {
                return ord;
            }
""", """            match a[ar.0..ar.1].cmp(&b[br.0..br.1]) {
                std::cmp::Ordering::Equal => {}
                ord => return ord,
            }
"""))
k("kid-cmp-ne", L, ("            if ord != std::cmp::Ordering::Equal {\n", "            if ord.is_ne() {\n"))
k("kid-eq-is_eq", L, ("        self.cmp(other) == std::cmp::Ordering::Equal\n", "        self.cmp(other).is_eq()\n"))
k("kid-eq-parts", L, ("        self.cmp(other) == std::cmp::Ordering::Equal\n", "        self.name() == other.name() && self.version() == other.version() && self.source() == other.source()\n"))
k("kid-hash-tuple", L, ("""        self.name().hash(state);
        self.version().hash(state);
        self.source().hash(state);
""", """        (self.name(), self.version(), self.source()).hash(state);
"""))
k("kid-accessor", L, ("        let (s, e) = self.components[0];\n        &self.repr[s..e]\n", "        let range = self.components[0];\n        &self.repr[range.0..range.1]\n"))
k("kid-from-opaque", L, ("""                let name = (0, repr.find(' ')?);
                let version = (name.1 + 1, repr[name.1 + 1..].find(' ')? + name.1 + 1);""", """                let name_end = repr.find(' ')?;
                let name = (0, name_end);
                let vbegin = name_end + 1;
                let version = (vbegin, vbegin + repr[vbegin..].find(' ')?);"""))
k("kid-from-else", L, ("""        if let Some(components) = parse() {
            Self { repr, components }
        } else {
            panic!("unable to parse package id '{repr}'");
        }
""", """        let Some(components) = parse() else {
            panic!("unable to parse package id '{repr}'");
        };
        Self { repr, components }
"""))
k("kid-from-split", L, ("""                    if let Some(split) = repr[vmn..].find('@') {
                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
                    } else {
                        ((begin, end), (vmn + 1, repr.len()))
                    }
""", """                    match repr[vmn..].find('@') {
                        Some(split) => {
                            let at = vmn + split;
                            ((vmn + 1, at), (at + 1, repr.len()))
                        }
                        None => ((begin, end), (vmn + 1, repr.len())),
                    }
"""))
k("edge-display", L, ("""            if let Some(cfg) = cfg {
                write!(f, " '{cfg}'")?;
            }
""", """            match cfg {
                Some(cfg) => write!(f, " '{cfg}'")?,
                None => {}
            }
"""))
# ---- pkgspec.rs
k("spec-ver", S, ("""        if let Some(vers) = &self.version {
            if vers != &krate.version {
                return false;
            }
        }
""", """        if self.version.as_ref().is_some_and(|vers| *vers != krate.version) {
            return false;
        }
"""))
k("spec-match", S, ("""        let Some((url, src)) = self
            .url
            .as_ref()
            .zip(krate.source.as_ref().map(|s| s.repr.as_str()))
        else {
            return true;
        };
""", """        let (url, src) = match (&self.url, &krate.source) {
            (Some(url), Some(src)) => (url, src.repr.as_str()),
            _ => return true,
        };
"""))
k("spec-begin", S, ("        let begin = src.find('+').map_or(0, |i| i + 1);\n", "        let begin = match src.find('+') {\n            Some(plus) => plus + 1,\n            None => 0,\n        };\n"))
k("spec-end", S, ("        let end = src.find('?').or_else(|| src.find('#')).unwrap_or(src.len());\n", "        let end = match src.find('?') {\n            Some(query) => query,\n            None => src.find('#').unwrap_or(src.len()),\n        };\n"))
k("spec-name-order", S, ("""        if self.name != krate.name {
            return false;
        }

        if let Some(vers) = &self.version {
            if vers != &krate.version {
                return false;
            }
        }
""", """        if let Some(vers) = &self.version {
            if vers != &krate.version {
                return false;
            }
        }

        if self.name != krate.name {
            return false;
        }
"""))
k("spec-asderef", S, ("        url == &src[begin..end]\n", "        url.as_str() == &src[begin..end]\n"))
k("spec-validate", S, ("""                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                    .is_some()
                {
                    Err(Error::InvalidPkgSpec(
                        "found an invalid character for the package name",
                    ))
                } else {
                    Ok(n.to_owned())
                }
""", """                let valid = n.chars().all(|c| c == '-' || c == '_' || c.is_ascii_alphanumeric());
                if !valid {
                    return Err(Error::InvalidPkgSpec(
                        "found an invalid character for the package name",
                    ));
                }
                Ok(n.to_owned())
"""))
k("spec-validate-any", S, ("""                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                    .is_some()
                {""", """                if n.chars().any(|c| !(c.is_ascii_alphanumeric() || matches!(c, '-' | '_'))) {"""))
k("spec-scheme", S, ("""                    match url.rfind("://") {
                        Some(ind) => match url.rfind('/') {
                            Some(pind) => {
                                if pind == ind + 2 {
                                    return Err(Error::InvalidPkgSpec("path required for urls"));
                                }

                                let path = &url[pind + 1..];
                                Some(path)
                            }
                            None => return Err(Error::InvalidPkgSpec("path required for urls")),
                        },
                        None => return Err(Error::InvalidPkgSpec("missing url scheme")),
                    }
""", """                    let Some(ind) = url.rfind("://") else {
                        return Err(Error::InvalidPkgSpec("missing url scheme"));
                    };
                    match url.rfind('/') {
                        Some(pind) if pind != ind + 2 => Some(&url[pind + 1..]),
                        _ => return Err(Error::InvalidPkgSpec("path required for urls")),
                    }
"""))
k("spec-nv-splitat", S, ("""                            if ind == nv.len() - 1 {
                                return Err(Error::InvalidPkgSpec(
                                    "package spec cannot end with ':'",
                                ));
                            }
""", """                            if ind + 1 == nv.len() {
                                return Err(Error::InvalidPkgSpec(
                                    "package spec cannot end with ':'",
                                ));
                            }
"""))
k("spec-maps", S, ("""                                    if nv.chars().next().unwrap().is_alphabetic() {
                                        Ok((validate_name(nv)?, None))
                                    } else {
                                        let version = Version::parse(nv).map_err(|_e| {
                                            Error::InvalidPkgSpec("failed to parse version")
                                        })?;

                                        Ok((validate_name(name)?, Some(version)))
                                    }
""", """                                    let first = nv.chars().next().unwrap();
                                    if !first.is_alphabetic() {
                                        let Ok(version) = Version::parse(nv) else {
                                            return Err(Error::InvalidPkgSpec("failed to parse version"));
                                        };
                                        return Ok((validate_name(name)?, Some(version)));
                                    }
                                    Ok((validate_name(nv)?, None))
"""))
k("spec-frag", S, ("""            if let Some(ind) = url.find('#') {
                if ind == url.len() - 1 {
                    return Err(Error::InvalidPkgSpec("package spec cannot end with '#'"));
                }

                let url_no_frag = url[..ind].to_owned();

                let (name, version) =
                    name_and_or_version(Some(&url[ind + 1..]), Some(&url_no_frag))?;
""", """            if let Some((base, frag)) = url.split_once('#') {
                if frag.is_empty() {
                    return Err(Error::InvalidPkgSpec("package spec cannot end with '#'"));
                }

                let url_no_frag = base.to_owned();

                let (name, version) = name_and_or_version(Some(frag), Some(&url_no_frag))?;
"""))
k("spec-version-fn", S, ("""                            Ok((
                                validate_name(&nv[..ind])?,
                                Some(Version::parse(&nv[ind + 1..]).map_err(|_e| {
                                    Error::InvalidPkgSpec("failed to parse version")
                                })?),
                            ))
""", """                            let name = validate_name(&nv[..ind])?;
                            let version = Version::parse(&nv[ind + 1..]).map_err(|_e| {
                                Error::InvalidPkgSpec("failed to parse version")
                            })?;
                            Ok((name, Some(version)))
"""))
# ---- features.rs
k("feat-match", F, ("""        let kind = if f.starts_with("dep:") {
            FeatureKind::Krate
        } else if let Some(ind) = f.find("?/") {
            FeatureKind::Weak(ind)
        } else if let Some(ind) = f.find('/') {
            FeatureKind::Strong(ind)
        } else {
            FeatureKind::Simple
        };
""", """        let kind = if f.starts_with("dep:") {
            FeatureKind::Krate
        } else {
            match (f.find("?/"), f.find('/')) {
                (Some(ind), _) => FeatureKind::Weak(ind),
                (None, Some(ind)) => FeatureKind::Strong(ind),
                (None, None) => FeatureKind::Simple,
            }
        };
"""))
k("feat-splitat", F, ("""            FeatureKind::Strong(ind) => Feature::Strong {
                krate: &self.inner[..ind],
                feature: &self.inner[ind + 1..],
            },
""", """            FeatureKind::Strong(ind) => {
                let (krate, rest) = self.inner.split_at(ind);
                Feature::Strong {
                    krate,
                    feature: &rest[1..],
                }
            }
"""))
k("feat-strip", F, ("            FeatureKind::Krate => Feature::Krate(&self.inner[4..]),\n", "            FeatureKind::Krate => Feature::Krate(&self.inner[\"dep:\".len()..]),\n"))
# ---- index.rs
k("idx-fn", X, ("""        self.cache.get(name).and_then(|ik| {
            ik.as_ref().and_then(|ik| {
                ik.versions
                    .iter()
                    .find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))
            })
        })
""", """        let ik = self.cache.get(name)?.as_ref()?;
        ik.versions
            .iter()
            .find(|ikv| ikv.version == *version)
            .map(|ikv| &ikv.features)
"""))
k("idx-entry", X, ("""        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }
""", """        krate
            .features
            .entry(ikey.clone())
            .or_insert_with(|| ivalue.clone());
"""))
k("idx-loop", X, ("""    let missing_deps: Vec<_> = krate
        .features
        .values()
        .flat_map(|sf| sf.iter())
        .filter_map(|sf| {
            let pf = crate::ParsedFeature::from(sf.as_str());

            if let super::features::Feature::Simple(simple) = pf.feat() {
                if krate.features.contains_key(simple) {
                    None
                } else {
                    Some(simple.to_owned())
                }
            } else {
                None
            }
        })
        .collect();
""", """    let mut missing_deps: Vec<String> = Vec::new();
    for sf in krate.features.values().flatten() {
        let pf = crate::ParsedFeature::from(sf.as_str());
        let super::features::Feature::Simple(simple) = pf.feat() else {
            continue;
        };
        if !krate.features.contains_key(simple) {
            missing_deps.push(simple.to_owned());
        }
    }
"""))
k("idx-guard", X, ("""    if krate.source.as_ref().is_none_or(|src| !src.is_crates_io()) {
        return;
    }
""", """    let from_crates_io = krate.source.as_ref().is_some_and(|src| src.is_crates_io());
    if !from_crates_io {
        return;
    }
"""))
# ---- builder.rs, the rest
k("cmd-flags", B, ("""        if cmd.frozen {
            opts.push("--frozen".to_owned());
        }

        if cmd.locked {
            opts.push("--locked".to_owned());
        }

        if cmd.offline {
            opts.push("--offline".to_owned());
        }
""", """        for (enabled, flag) in [
            (cmd.frozen, "--frozen"),
            (cmd.locked, "--locked"),
            (cmd.offline, "--offline"),
        ] {
            if enabled {
                opts.push(flag.to_owned());
            }
        }
"""))
k("cmd-extend", B, ("        opts.append(&mut cmd.other_options);\n        mdc.other_options(opts);\n", "        opts.extend(cmd.other_options);\n        mdc.other_options(opts);\n"))
k("cmd-cd", B, ("""            if !cd.as_os_str().is_empty() {
                mdc.current_dir(cd);
            } else {
                mdc.current_dir(".");
            }
""", """            if cd.as_os_str().is_empty() {
                mdc.current_dir(".");
            } else {
                mdc.current_dir(cd);
            }
"""))
k("cmd-mp", B, ("""        if let Some(mp) = cmd.manifest_path {
            cmd.current_dir = Some(mp.parent().unwrap().to_owned());
            mdc.manifest_path("Cargo.toml");
        }

        if let Some(cd) = cmd.current_dir {""", """        let mut current_dir = cmd.current_dir;
        if let Some(mp) = cmd.manifest_path {
            current_dir = Some(mp.parent().unwrap().to_path_buf());
            mdc.manifest_path("Cargo.toml");
        }

        if let Some(cd) = current_dir {"""))
k("cmd-feat-set", B, ("        cmd.features.sort();\n        cmd.features.dedup();\n", "        let unique: std::collections::BTreeSet<String> = cmd.features.into_iter().collect();\n        cmd.features = unique.into_iter().collect();\n"))
k("tgt-from", B, ("""        match cfg_expr::targets::get_builtin_target_by_triple(triple) {
            Some(bi) => Self::Builtin(bi),
            None => {
                #[cfg(feature = "targets")]""", """        let builtin = cfg_expr::targets::get_builtin_target_by_triple(triple);
        match builtin {
            Some(bi) => Self::Builtin(bi),
            None => {
                #[cfg(feature = "targets")]"""))
k("tf-contains", B, ("                self.features.iter().any(|f| f == feat)\n", "                self.features.iter().any(|f| f.as_str() == *feat)\n"))
k("tf-nest", B, ("""            cfg_expr::expr::Predicate::Target(tp) => match &self.inner {
                Target::Builtin(bi) => tp.matches(*bi),
                #[cfg(feature = "targets")]
                Target::Triple(trip) => tp.matches(trip),
                Target::Unknown(_) => false,
            },
""", """            cfg_expr::expr::Predicate::Target(tp) => {
                match &self.inner {
                    Target::Unknown(_) => false,
                    Target::Builtin(bi) => tp.matches(*bi),
                    #[cfg(feature = "targets")]
                    Target::Triple(trip) => tp.matches(trip),
                }
            }
"""))
k("ik-flags", B, ("""        self.ignore_kinds |= kind_flag;

        self.ignore_kinds |= match scope {
            Scope::Workspace => kind_flag << 1,
            Scope::NonWorkspace => kind_flag << 2,
            Scope::All => (kind_flag << 1) | (kind_flag << 2),
        };
""", """        let scope_flags = match scope {
            Scope::Workspace => kind_flag << 1,
            Scope::NonWorkspace => kind_flag << 2,
            Scope::All => (kind_flag << 1) | (kind_flag << 2),
        };

        self.ignore_kinds |= kind_flag | scope_flags;
"""))
k("iwc-loop", B, ("""            let p = p.canonicalize().unwrap_or_else(|_| p.to_owned());

            if !p.ends_with("Cargo.toml") {
                p.join("Cargo.toml")
            } else {
                p
            }
""", """            let mut p = p.canonicalize().unwrap_or_else(|_| p.to_path_buf());

            if !p.ends_with("Cargo.toml") {
                p.push("Cargo.toml");
            }
            p
"""))
k("it-loop", B, ("""        self.target_filters
            .extend(targets.into_iter().map(|(triple, features)| TargetFilter {
                inner: triple.into(),
                features,
            }));
""", """        for (triple, features) in targets {
            self.target_filters.push(TargetFilter {
                inner: triple.into(),
                features,
            });
        }
"""))
k("ex-loop", B, ("        self.exclude.extend(exclude);\n", "        for spec in exclude {\n            self.exclude.push(spec);\n        }\n"))
k("build-match", B, ("        let metadata = cmd.into().exec()?;\n        self.build_with_metadata(metadata, on_filter)\n", "        let command: cm::MetadataCommand = cmd.into();\n        match command.exec() {\n            Ok(metadata) => self.build_with_metadata(metadata, on_filter),\n            Err(err) => Err(err.into()),\n        }\n"))
# ---- cm
k("md-root", "cm.rs", ("""            let root = resolve.root.as_ref()?;
            self.packages.iter().find(|pkg| &pkg.id == root)
""", """            match &resolve.root {
                Some(root) => self.packages.iter().find(|pkg| pkg.id == *root),
                None => None,
            }
"""))
k("md-pkgs", "cm.rs", ("""            .filter(|&p| self.workspace_members.contains(&p.id))
""", """            .filter(|p| self.workspace_members.iter().any(|id| *id == p.id))
"""))
k("md-index", "cm.rs", ("""        self.packages
            .iter()
            .find(|p| p.id == *idx)
            .unwrap_or_else(|| panic!("no package with this id: {:?}", idx))
""", """        match self.packages.iter().find(|p| p.id == *idx) {
            Some(pkg) => pkg,
            None => panic!("no package with this id: {:?}", idx),
        }
"""))
k("lic-match", "cm.rs", ("""        self.license_file.as_ref().map(|file| {
            self.manifest_path
                .parent()
                .unwrap_or(&self.manifest_path)
                .join(file)
        })
""", """        let file = self.license_file.as_ref()?;
        let dir = self.manifest_path.parent().unwrap_or(&self.manifest_path);
        Some(dir.join(file))
"""))
k("iskind-contains", "cm.rs", ("        self.kind.iter().any(|kind| kind == &name)\n", "        self.kind.contains(&name)\n"))
k("tk-from", "cm.rs", ("""        Ok(match value {
            "2015" => Self::E2015,
            "2018" => Self::E2018,
            "2021" => Self::E2021,
            "2024" => Self::E2024,
            x => return Err(format!("unknown edition {x}")),
        })
""", """        match value {
            "2015" => Ok(Self::E2015),
            "2018" => Ok(Self::E2018),
            "2021" => Ok(Self::E2021),
            "2024" => Ok(Self::E2024),
            x => Err(format!("unknown edition {x}")),
        }
"""))
k("cc-exec", "cm/cmd.rs", ("""        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)
""", """        let stdout = std::str::from_utf8(&output.stdout)?;
        for line in stdout.lines() {
            if line.starts_with('{') {
                return Self::parse(line);
            }
        }
        Err(Error::NoJson)
"""))
k("cc-cargo", "cm/cmd.rs", ("""        let cargo = self
            .cargo_path
            .clone()
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())
            .unwrap_or_else(|| PathBuf::from("cargo"));
""", """        let cargo = match &self.cargo_path {
            Some(path) => path.clone(),
            None => match std::env::var("CARGO") {
                Ok(cargo) => PathBuf::from(cargo),
                Err(_) => PathBuf::from("cargo"),
            },
        };
"""))
k("cc-args", "cm/cmd.rs", ("""            cmd.arg("--manifest-path").arg(manifest_path.as_os_str());
""", """            cmd.arg("--manifest-path");
            cmd.arg(manifest_path);
"""))
k("cc-parse", "cm/cmd.rs", ("        let meta = serde_json::from_str(data)?;\n        Ok(meta)\n", "        serde_json::from_str(data).map_err(Error::from)\n"))
k("de-rust", "cm/de.rs", ("""    for c in buf.chars() {
        if c == '-' {
            return Err(E::custom(
                "pre-release identifiers are not supported in rust-version",
            ));
        } else if c == '+' {
            return Err(E::custom("build metadata is not supported in rust-version"));
        }
    }
""", """    if let Some(c) = buf.chars().find(|c| matches!(c, '-' | '+')) {
        return Err(E::custom(if c == '-' {
            "pre-release identifiers are not supported in rust-version"
        } else {
            "build metadata is not supported in rust-version"
        }));
    }
"""))
k("de-depkind", "cm/de.rs", ("""        if let Some(kind) = kind {
            Ok(match kind.as_ref() {
                "normal" => Self::Normal,
                "dev" => Self::Development,
                "build" => Self::Build,
                unknown => {
                    return Err(Error::unknown_variant(unknown, &["normal", "dev", "build"]));
                }
            })
        } else {
            Ok(Self::Normal)
        }
""", """        match kind.as_deref() {
            None | Some("normal") => Ok(Self::Normal),
            Some("dev") => Ok(Self::Development),
            Some("build") => Ok(Self::Build),
            Some(unknown) => Err(Error::unknown_variant(unknown, &["normal", "dev", "build"])),
        }
"""))
k("de-required", "cm/de.rs", ("""        if let Some(v) = $name {
            v
        } else {
            return Err(Error::missing_field(stringify!($name)));
        }
""", """        match $name {
            Some(v) => v,
            None => return Err(Error::missing_field(stringify!($name))),
        }
"""))
k("de-required-q", "cm/de.rs", ("""        if let Some(v) = $name {
            v
        } else {
            return Err(Error::missing_field(stringify!($name)));
        }
""", """        $name.ok_or_else(|| Error::missing_field(stringify!($name)))?
"""))
k("de-tri", "cm/de.rs", ("""        match $res {
            Ok(r) => r,
            Err(err) => return Err(err),
        }
""", """        $res?
"""))
k("de-ignore", "cm/de.rs", ("        while let Some(Self) = tri!(seq.next_element()) {}\n        Ok(Self)\n", "        loop {\n            if let None = tri!(seq.next_element::<Self>()) {\n                break;\n            }\n        }\n        Ok(Self)\n"))
k("de-key-str", "cm/de.rs", ("""            "deps" => deps = tri!(map.next_value()),
            "dependencies" => dependencies = Some(tri!(map.next_value())),
            "features" => features = tri!(map.next_value()),
            _ => {""", """            "features" => features = tri!(map.next_value()),
            "dependencies" => {
                let value = tri!(map.next_value());
                dependencies = Some(value);
            }
            "deps" => deps = tri!(map.next_value()),
            _ => {"""))
k("err-display", "errors.rs", ("""            Self::NoResolveGraph => f.write_str("no resolution graph was provided"),
""", """            Self::NoResolveGraph => write!(f, "no resolution graph was provided"),
"""))
k("err-source", "errors.rs", ("""        match self {
            Self::Metadata(err) => Some(err),
            _ => None,
        }
""", """        if let Self::Metadata(err) = self {
            Some(err)
        } else {
            None
        }
"""))
