"""Edits of build_with_metadata that keep its behaviour: every rule has to stay quiet"""
B = "src/builder.rs"
CASES = []


def k(n, *e):
    CASES.append(dict(n=n, p=None, e=[(B, o, w) for o, w in e]))


k("check-match", ("""            map.get(pid).is_some_and(|pn| {
                if let Some(feat) = feature {
                    pn.actual.contains(&feat)
                } else {
                    pn.filled_non_optional
                }
            })
        };""", """            match (map.get(pid), feature) {
                (None, _) => false,
                (Some(pn), Some(feat)) => pn.actual.contains(&feat),
                (Some(pn), None) => pn.filled_non_optional,
            }
        };"""))
k("names-any", ("""            for resolved_name in [&dep.name, dep.pkg.name()] {
                if pkg_name_equals(resolved_name, krate_dep_name) {
                    return true;
                }
            }

            false""", """            pkg_name_equals(&dep.name, krate_dep_name)
                || pkg_name_equals(dep.pkg.name(), krate_dep_name)"""))
k("names-any-iter", ("""            for resolved_name in [&dep.name, dep.pkg.name()] {
                if pkg_name_equals(resolved_name, krate_dep_name) {
                    return true;
                }
            }

            false""", """            [dep.name.as_str(), dep.pkg.name()].iter().any(|n| pkg_name_equals(n, krate_dep_name))"""))
k("pkg-eq-loop", ("""            krate.len() == human.len()
                && krate
                    .chars()
                    .zip(human.chars())
                    .all(|(a, b)| a == b || a == '_' && b == '-')""", """            if krate.len() != human.len() {
                return false;
            }
            for (a, b) in krate.chars().zip(human.chars()) {
                if a != b && !(a == '_' && b == '-') {
                    return false;
                }
            }
            true"""))
CAND = """                            if dk.kind != dep.kind {
                                return false;
                            }

                            // Crates can rename the dependency package themselves
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                return false;
                            }

                            // Handle case where a dependency may not have a version requirement, which
                            // typically happens in the case of non-registry dependencies that use a pre-release
                            // semver, if the version _is_ a prelease it will never match the empty
                            // requirement
                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                return false;
                            }

                            crate::targets_eq(&dk.cfg, &dep.target)
"""
CAND2 = """                                if dk.kind != dep.kind {
                                    return false;
                                }


                                // Crates can rename the dependency package themselves
                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                    return false;
                                }

                                // Handle case where a dependency may not have a version requirement, which
                                // typically happens in the case of non-registry dependencies that use a pre-release
                                // semver, if the version _is_ a prelease it will never match the empty
                                // requirement. Note this will pass through eg. path dependencies that don't specify a
                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                    return false;
                                }

                                if !crate::targets_eq(&dk.cfg, &dep.target) {
                                    return false;
                                }
"""
k("candidate-closure",
  ("                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {\n" + CAND + "                        }).count() > 1;",
   """                        let is_candidate = |dep: &cm::Dependency| -> bool {
                            if dk.kind != dep.kind {
                                return false;
                            }
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                return false;
                            }
                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                return false;
                            }
                            crate::targets_eq(&dk.cfg, &dep.target)
                        };
                        let multiple_candidates = krate.dependencies.iter().filter(|dep| is_candidate(dep)).count() > 1;"""),
  (CAND2, "                                if !is_candidate(dep) { return false; }\n"))
k("candidate-conj",
  ("                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {\n" + CAND + "                        }).count() > 1;",
   """                        let is_candidate = |dep: &cm::Dependency| -> bool {
                            let dname = match &dep.rename { Some(r) => r.as_str(), None => dep.name.as_str() };
                            dk.kind == dep.kind
                                && (maybe_real_name == dname || dep_names_match(dname, rdep))
                                && (dep.req.matches(rdep_version) || (has_prelease && dep.req.comparators.is_empty()))
                                && crate::targets_eq(&dk.cfg, &dep.target)
                        };
                        let mut n = 0;
                        for dep in &krate.dependencies { if is_candidate(dep) { n += 1; } }
                        let multiple_candidates = n > 1;"""),
  (CAND2, "                                if !is_candidate(dep) { return false; }\n"))
k("candidate-ge2", ("                        }).count() > 1;", "                        }).count() >= 2;"))
k("candidate-nth", ("                        }).count() > 1;", "                        }).nth(1).is_some();"))
k("find-loop", ("""                        let Some((dep_index, dep)) = krate
                            .dependencies
                            .iter()
                            .enumerate()
                            .find(|(_, dep)| {
""", """                        let Some((dep_index, dep)) = krate
                            .dependencies
                            .iter()
                            .enumerate()
                            .filter(|(_, dep)| {
"""), ("""                                    compare_paths(dpath, rdep.pkg.source())
                                } else {
                                    false
                                }
                            }) else {""", """                                    compare_paths(dpath, rdep.pkg.source())
                                } else {
                                    false
                                }
                            }).next() else {"""))
k("source-match", ("""                                if let Some(dsrc) = &dep.source {
                                    let psrc = rdep.pkg.source();
                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
                                        return dsrc == psrc;
                                    };
""", """                                if let Some(dsrc) = &dep.source {
                                    let psrc = rdep.pkg.source();
                                    let (dgit, pgit) = match (dsrc.strip_prefix("git+"), psrc.strip_prefix("git+")) {
                                        (Some(d), Some(p)) => (d, p),
                                        _ => return dsrc == psrc,
                                    };
"""))
k("mask-fn", ("""                        let mask = match dk.kind {
                            DepKind::Normal => 0x1,
                            DepKind::Dev => 0x8,
                            DepKind::Build => 0x40,
                        };

                        let mask = mask | (mask << if is_in_workspace { 1 } else { 2 });
                        if mask & ignore_kinds == mask {
                            return None;
                        }
""", """                        if is_ignored(dk.kind, is_in_workspace, ignore_kinds) {
                            return None;
                        }
"""), ("""        #[derive(Debug)]
        struct DepKindInfo {""", """        fn is_ignored(kind: DepKind, ws: bool, ignore_kinds: u32) -> bool {
            let base: u32 = match kind {
                DepKind::Normal => 0x1,
                DepKind::Dev => 0x8,
                DepKind::Build => 0x40,
            };
            let mask = if ws { base | (base << 1) } else { base | (base << 2) };
            (mask & ignore_kinds) == mask
        }

        #[derive(Debug)]
        struct DepKindInfo {"""))
k("mask-table", ("""                        let mask = match dk.kind {
                            DepKind::Normal => 0x1,
                            DepKind::Dev => 0x8,
                            DepKind::Build => 0x40,
                        };

                        let mask = mask | (mask << if is_in_workspace { 1 } else { 2 });
                        if mask & ignore_kinds == mask {""", """                        let mask: u32 = match (dk.kind, is_in_workspace) {
                            (DepKind::Normal, true) => 0x3,
                            (DepKind::Normal, false) => 0x5,
                            (DepKind::Dev, true) => 0x18,
                            (DepKind::Dev, false) => 0x28,
                            (DepKind::Build, true) => 0xc0,
                            (DepKind::Build, false) => 0x140,
                        };
                        if ignore_kinds & mask == mask {"""))
k("mask-not", ("                        if mask & ignore_kinds == mask {", "                        if mask & !ignore_kinds == 0 {"))
k("cfg-fn", ("""                                let matched = if let Some(expr) = &cfg.cfg {""", """                                let matched = if let Some(expr) = cfg.cfg.as_ref() {"""))
k("cfg-loop", ("""                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))
""", """                                    let mut hit = false;
                                    for target in targets {
                                        if expr.eval(|pred| target.eval(pred)) {
                                            hit = true;
                                            break;
                                        }
                                    }
                                    hit
"""))
k("cfg-swap", ("""                        let cfg = if let Some(cfg) = &dk.cfg {
                            if !include_all_targets {
                                let matched""", """                        let cfg = if let Some(cfg) = dk.cfg.as_ref() {
                            if !targets.is_empty() {
                                let matched"""), ("        let include_all_targets = self.target_filters.is_empty();\n", ""))
k("cfg-predcount", ("expr.predicates().count() == 0 && !expr.eval(|_| true)", "expr.predicates().next().is_none() && !expr.eval(|_| true)"))
k("edges-vec", ("""                let mut edges = edges.peekable();
                if edges.peek().is_none() {
                    continue;
                }
""", """                let edges: Vec<_> = edges.collect();
                if edges.is_empty() {
                    continue;
                }
"""))
k("deps-for", ("                deps.extend(rnode.deps.iter().map(|ndep| (&ndep.pkg, (ndep, None))));", """                for ndep in &rnode.deps {
                    deps.insert(&ndep.pkg, (ndep, None));
                }"""))
k("exclude-all", ("            if exclude.iter().any(|exc| exc.matches(krate)) {", "            if !exclude.iter().all(|exc| !exc.matches(krate)) {"))
k("exclude-loop", ("""            if exclude.iter().any(|exc| exc.matches(krate)) {
                continue;
            }
""", """            let mut excluded = false;
            for exc in &exclude {
                if exc.matches(krate) {
                    excluded = true;
                    break;
                }
            }
            if excluded {
                continue;
            }
"""))
k("get-dep-id-find", ("""                rnode.deps.iter().find_map(|ndep| {
                    if dep_names_match(dep_name, ndep) {
                        Some(&ndep.pkg)
                    } else {
                        None
                    }
                })
""", """                rnode
                    .deps
                    .iter()
                    .find(|ndep| dep_names_match(dep_name, ndep))
                    .map(|ndep| &ndep.pkg)
"""))
k("get-dep-id-loop", ("""                rnode.deps.iter().find_map(|ndep| {
                    if dep_names_match(dep_name, ndep) {
                        Some(&ndep.pkg)
                    } else {
                        None
                    }
                })
""", """                for ndep in &rnode.deps {
                    if dep_names_match(dep_name, ndep) {
                        return Some(&ndep.pkg);
                    }
                }
                None
"""))
k("dep-get-match", ("""            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };
""", """            let pn = match dep_edge_map.get(&id) {
                Some(pn) => pn,
                None => {
                    on_filter.filtered(krate);
                    continue;
                }
            };
"""))
k("dep-contains", ("""            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };
""", """            if !dep_edge_map.contains_key(&id) {
                on_filter.filtered(krate);
                continue;
            }
            let pn = &dep_edge_map[&id];
"""))
k("feat-set-loop", ("""                feature_edge_map[&id]
                    .actual
                    .iter()
                    .map(|k| rnode.feature(*k).to_owned())
                    .collect()
            };""", """                let mut set = std::collections::BTreeSet::new();
                for k in &feature_edge_map[&id].actual {
                    set.insert(rnode.feature(*k).to_owned());
                }
                set
            };"""))
k("default-inline", ("""                            uses_default_features: dep.uses_default_features && rdep_node.has_default_feature,""", """                            uses_default_features: rdep_node.has_default_feature && dep.uses_default_features,"""))
k("default-if", ("""                    for feat in edge
                        .features
                        .iter()
                        .map(|f| f.as_str())
                        .chain(edge.uses_default_features.then_some("default"))
                    {
                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    }
""", """                    for feat in edge.features {
                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    }

                    if edge.uses_default_features {
                        let feat_index = rdep_node.feature_index("default");
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    }
"""))
k("dup-all", ("""                    if dep
                        .edges
                        .iter()
                        .any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)
                    {
                        continue;
                    }
""", """                    let already = dep
                        .edges
                        .iter()
                        .find(|d| d.cfg.as_deref() == edge.cfg && d.kind == edge.kind)
                        .is_some();
                    if already {
                        continue;
                    }
"""))
k("dup-nested", ("""                    if dep
                        .edges
                        .iter()
                        .any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)
                    {
                        continue;
                    }
""", """                    if dep.edges.iter().any(|d| match (&d.cfg, edge.cfg) {
                        (Some(a), Some(b)) => d.kind == edge.kind && a == b,
                        (None, None) => d.kind == edge.kind,
                        _ => false,
                    }) {
                        continue;
                    }
"""))
k("push-order", ("""                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
""", """                        let feat_index = rdep_node.feature_index(feat);
                        features.push(feat_index);
                        visit_stack.push_with_feature(pkg, feat_index);
"""))
k("push-literal", ("""                    let edge = DependencyEdge {
                        kind: edge.kind,
                        dep_index: edge.dep_index,
                        cfg: edge.cfg.map(|s| s.into()),
                        features,
                    };

                    dep.edges.push(edge);
""", """                    let Edge { kind, cfg, dep_index, .. } = edge;
                    dep.edges.push(DependencyEdge {
                        kind,
                        cfg: cfg.map(str::to_owned),
                        features,
                        dep_index,
                    });
"""))
k("roots-enumerate", ("""            for feat in 0..rnode.features.len() {
                visit_stack.push_with_feature(root, feat);
            }
""", """            for (feat, _) in rnode.features.iter().enumerate() {
                visit_stack.push_with_feature(root, feat);
            }
"""))
k("roots-iflet", ("""            let Ok(krate_index) = nodes.binary_search_by(|n| n.id.cmp(root)) else {
                // The root isn't resolved, so there is nothing to reach from it
                continue;
            };
            let rnode = &nodes[krate_index];

            visit_stack.push(root);

            for feat in 0..rnode.features.len() {
                visit_stack.push_with_feature(root, feat);
            }
""", """            if let Ok(krate_index) = nodes.binary_search_by(|n| n.id.cmp(root)) {
                visit_stack.push(root);
                (0..nodes[krate_index].features.len()).for_each(|feat| visit_stack.push_with_feature(root, feat));
            }
"""))
k("rnode-get", ("""            let krate_index = nodes.binary_search_by(|n| n.id.cmp(pid)).unwrap();

            let rnode = &nodes[krate_index];
            // Every""", """            let rnode = get_rnode(pid);
            // Every"""))
k("no-visitstack", ("""            #[inline]
            fn push(&mut self, kid: &'s Kid) {
                self.v.push((kid, None));
            }

            #[inline]
            fn push_with_feature(&mut self, kid: &'s Kid, feat: usize) {
                self.v.push((kid, Some(feat)));
            }
""", """            #[inline]
            fn push_inner(&mut self, kid: &'s Kid, feat: Option<usize>) {
                self.v.push((kid, feat));
            }

            #[inline]
            fn push(&mut self, kid: &'s Kid) {
                self.push_inner(kid, None);
            }

            #[inline]
            fn push_with_feature(&mut self, kid: &'s Kid, feat: usize) {
                self.push_inner(kid, Some(feat));
            }
"""))
k("while-loop", ("        while let Some((pid, feature)) = visit_stack.pop() {", """        loop {
            let Some((pid, feature)) = visit_stack.pop() else {
                break;
            };
"""))
k("weak-matches", ("            let is_weak = matches!(pf.feat(), Feature::Weak { .. });", "") if 0 else
  ("                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });", "                    let is_weak = match pf.feat() { Feature::Weak { .. } => true, _ => false };"))
k("weak-get", ("                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {", "                    if is_weak && pn.deps.get(&ndep.pkg).is_none() {"))
k("pending-merged", ("""                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
                        deps.entry(&ndep.pkg)
                            .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                            .1
                            .as_mut()
                            .unwrap()
                            .append(&mut pending);
                    }

                    let feats = deps
                        .entry(&ndep.pkg)
                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                        .1
                        .as_mut()
                        .unwrap();
""", """                    let feats = deps
                        .entry(&ndep.pkg)
                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                        .1
                        .as_mut()
                        .unwrap();

                    if let Some(pending) = krate_features.pending_weak.remove(&ndep.pkg) {
                        feats.extend(pending);
                    }
"""))
k("visit-closure", ("""                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
                                for feat in kf {
                                    visit_stack.push_with_feature(vd, feat);
                                    dep.features.insert(feat);
                                }
                            }
                        }

                        for feat in features {""", """                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
                            for feat in krate_features.pending_weak.remove(vd).unwrap_or_default() {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }

                        for feat in features {"""))
k("visit-bool", ("                let mut visit_dep = Some(pkg);\n", "                let mut first_visit = true;\n"),
  ("""                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
                                for feat in kf {
                                    visit_stack.push_with_feature(vd, feat);
                                    dep.features.insert(feat);
                                }
                            }
                        }

                        for feat in features {""", """                        if first_visit {
                            first_visit = false;
                            visit_stack.push(pkg);
                            if let Some(kf) = krate_features.pending_weak.remove(pkg) {
                                for feat in kf {
                                    visit_stack.push_with_feature(pkg, feat);
                                    dep.features.insert(feat);
                                }
                            }
                        }

                        for feat in features {"""),
  ("""                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut features""", """                    if first_visit {
                        first_visit = false;
                        visit_stack.push(pkg);
                        if let Some(kf) = krate_features.pending_weak.remove(pkg) {
                            for feat in kf {
                                visit_stack.push_with_feature(pkg, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut features"""))
k("feature-let-match", ("""                let Some(fs) = krate.features.get(feature_key) else {
                    // TODO: Show the user a warning, or just fail?
                    continue;
                };

                for sf in fs {""", """                for sf in krate.features.get(feature_key).into_iter().flatten() {"""))
k("graph-loop", ("""                let graph: Vec<_> = rnode
                    .features
                    .iter()
                    .filter_map(|feat| {""", """                let graph: Vec<_> = rnode
                    .features
                    .iter()
                    .flat_map(|feat| {"""))
k("weak-then", ("""                                        if rnode.features.iter().any(|kn| kn == krate_name) {
                                            Some(FeatureEdge {
                                                kid: get_dep_id(krate_name)?,
                                                name: FeatureEdgeName::Feature(feature.to_owned()),
                                            })
                                        } else {
                                            None
                                        }
""", """                                        if !rnode.features.iter().any(|kn| kn == krate_name) {
                                            return None;
                                        }

                                        Some(FeatureEdge {
                                            kid: get_dep_id(krate_name)?,
                                            name: FeatureEdgeName::Feature(feature.to_owned()),
                                        })
"""))
k("weak-contains", ("if rnode.features.iter().any(|kn| kn == krate_name) {", "if rnode.features.iter().any(|kn| kn.as_str() == krate_name) {"))
k("krate-feat-if", ("""                                        let real_name = kid.name();

                                        Some(FeatureEdge {
                                            kid,
                                            name: if real_name != krate_name {
                                                FeatureEdgeName::Rename(krate_name.to_owned())
                                            } else {
                                                FeatureEdgeName::Krate
                                            },
                                        })
""", """                                        let name = if kid.name() == krate_name {
                                            FeatureEdgeName::Krate
                                        } else {
                                            FeatureEdgeName::Rename(krate_name.to_owned())
                                        };

                                        Some(FeatureEdge { kid, name })
"""))
k("attach-unwrap-or", ("""                        let feat_node = if let Some(feat_node) = get(graph, dep_id, Some(&feat)) {
                            feat_node
                        } else {
                            graph.add_node(crate::Node::Feature {
                                krate_index: target_krate,
                                name: feat,
                            })
                        };
""", """                        let feat_node = match get(graph, dep_id, Some(&feat)) {
                            Some(feat_node) => feat_node,
                            None => graph.add_node(crate::Node::Feature {
                                krate_index: target_krate,
                                name: feat,
                            }),
                        };
"""))
k("attach-orelse", ("""                        let feat_node = if let Some(feat_node) = get(graph, dep_id, Some(&feat)) {
                            feat_node
                        } else {
                            graph.add_node(crate::Node::Feature {
                                krate_index: target_krate,
                                name: feat,
                            })
                        };
""", """                        let feat_node = get(graph, dep_id, Some(&feat)).unwrap_or_else(|| {
                            graph.add_node(crate::Node::Feature {
                                krate_index: target_krate,
                                name: feat,
                            })
                        });
"""))
k("target-letelse", ("""                let target_krate = if let Some(tk) = get(&graph, dep_id, None) {
                    tk
                } else {
                    continue;
                };
""", """                let Some(target_krate) = get(&graph, dep_id, None) else {
                    continue;
                };
"""))
k("direct-late", ("                    let attach_direct_edge = edge.features.is_empty();\n", "                    let has_features = !edge.features.is_empty();\n"),
  ("                    if attach_direct_edge {\n", "                    if !has_features {\n"))
k("direct-first", ("""                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }

                    if attach_direct_edge {
                        graph.add_edge(
                            srcid,
                            target_krate,
                            Edge::Dep {
                                kind: edge.kind,
                                cfg: edge.cfg,
                            }
                            .into(),
                        );
                    }
""", """                    if attach_direct_edge {
                        let direct = Edge::Dep {
                            kind: edge.kind,
                            cfg: edge.cfg,
                        };
                        graph.add_edge(srcid, target_krate, E::from(direct));
                    }

                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }
"""))
k("get-split", ("""            if let Some(feat) = feature {
                graph.raw_nodes()[krates_end..]
                    .iter()
                    .enumerate()
                    .find_map(|(i, n)| {
                        if let crate::Node::Feature { krate_index, name } = &n.weight {
                            if let crate::Node::Krate { id, .. } = &graph[*krate_index] {
                                if id == kid && name == feat {
                                    return Some(crate::NodeId::new(i + krates_end));
                                }
                            }
                        }

                        None
                    })
            } else {""", """            if let Some(feat) = feature {
                for (i, n) in graph.raw_nodes().iter().enumerate().skip(krates_end) {
                    let crate::Node::Feature { krate_index, name } = &n.weight else {
                        continue;
                    };
                    let crate::Node::Krate { id, .. } = &graph[*krate_index] else {
                        continue;
                    };
                    if id == kid && name == feat {
                        return Some(crate::NodeId::new(i));
                    }
                }
                None
            } else {"""))
k("get-position", ("""                graph.raw_nodes()[..krates_end]
                    .iter()
                    .enumerate()
                    .find_map(|(i, n)| {
                        if let crate::Node::Krate { id, .. } = &n.weight {
                            if id == kid {
                                return Some(crate::NodeId::new(i));
                            }
                        }

                        None
                    })
            }
        };""", """                graph.raw_nodes()[..krates_end]
                    .iter()
                    .position(|n| matches!(&n.weight, crate::Node::Krate { id, .. } if id == kid))
                    .map(crate::NodeId::new)
            }
        };"""))
k("fold-loop", ("""                .fold((0usize, 0usize), |(nc, ec), (pid, feats)| {
                    let nc = nc + feats.actual.len() * 2;""", """                .fold((0usize, 0usize), |(nc, ec), (pid, feats)| {
                    let nc = nc + 2 * feats.actual.len();"""))
k("no-reserve", ("        graph.reserve_nodes(node_count);\n        graph.reserve_edges(edge_count);\n", "        graph.reserve_edges(edge_count);\n        graph.reserve_nodes(node_count);\n"))
k("src-indices", ("""        for srcind in 0..graph.node_count() {
            let srcid = crate::NodeId::new(srcind);
            let crate::Node::Krate { id: pid, .. } = &graph[srcid] else {
                continue;
            };

            let Some(pn) = dep_edge_map.remove(pid) else {
                continue;
            };
""", """        for srcid in (0..graph.node_count()).map(crate::NodeId::new) {
            let pn = match &graph[srcid] {
                crate::Node::Krate { id: pid, .. } => dep_edge_map.remove(pid),
                crate::Node::Feature { .. } => None,
            };
            let Some(pn) = pn else {
                continue;
            };
"""))
k("src-krates-end", ("        for srcind in 0..graph.node_count() {\n", "        for srcind in 0..krates_end {\n"))
k("p3-position", ("""                let Some((_parent, sub_features)) = enabled
                    .iter()
                    .position(|(k, _)| *k == feat)
                    .map(|i| enabled.swap_remove(i))
                else {
                    continue;
                };
""", """                let Some(index) = enabled.iter().position(|(k, _)| *k == feat) else {
                    continue;
                };
                let (_parent, sub_features) = enabled.swap_remove(index);
"""))
k("p3-remove", (".map(|i| enabled.swap_remove(i))", ".map(|i| enabled.remove(i))"))
k("p3-featname", ("""                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(feat) => Some(feat),
                        FeatureEdgeName::Rename(kname) => Some(kname),
                        FeatureEdgeName::Krate => None,
                    };
""", """                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(name) | FeatureEdgeName::Rename(name) => Some(name),
                        FeatureEdgeName::Krate => None,
                    };
"""))
k("p3-contains", ("""                            if !features.contains(&feat_name) {
                                features.insert(feat_name.clone());
                                feature_stack.push(feat_name);
                            }
""", """                            if features.insert(feat_name.clone()) {
                                feature_stack.push(feat_name);
                            }
"""))
k("p3-kind-let", ("""            let Some((kind, mut feature_stack)) = get(&graph, pid, None).and_then(|kind| {
                let crate::Node::Krate { features, .. } = &graph[kind] else {
                    return None;
                };

                Some((kind, features.iter().cloned().collect::<Vec<_>>()))
            }) else {
                continue;
            };
""", """            let Some(kind) = get(&graph, pid, None) else {
                continue;
            };
            let crate::Node::Krate { features: crate_features, .. } = &graph[kind] else {
                continue;
            };
            let mut feature_stack: Vec<String> = crate_features.iter().cloned().collect();
"""))
k("p3-getorinsert", ("""                node_id.unwrap_or_else(|| {
                    let krate_index = get(graph, kid, None).unwrap();

                    graph.add_node(crate::Node::Feature {
                        krate_index,
                        name: feature.to_owned(),
                    })
                })
""", """                if let Some(node_id) = node_id {
                    return node_id;
                }

                let krate_index = get(graph, kid, None).unwrap();
                graph.add_node(crate::Node::Feature {
                    krate_index,
                    name: feature.to_owned(),
                })
"""))
k("p3-continue-inv", ("""                    if sub_feat.kid != pid && get(&graph, sub_feat.kid, None).is_none() {
                        continue;
                    }
""", """                    let foreign = sub_feat.kid != pid;
                    if foreign && get(&graph, sub_feat.kid, None).is_none() {
                        continue;
                    }
"""))
k("p3-notany", ("""                        && get(&graph, sub_feat.kid, None).is_none_or(|dep| {
                            !graph.neighbors(kind).any(|nid| match &graph[nid] {
                                crate::Node::Krate { .. } => nid == dep,
                                crate::Node::Feature { krate_index, .. } => *krate_index == dep,
                            })
                        })
""", """                        && get(&graph, sub_feat.kid, None).is_none_or(|dep| {
                            graph.neighbors(kind).all(|nid| match &graph[nid] {
                                crate::Node::Krate { .. } => nid != dep,
                                crate::Node::Feature { krate_index, .. } => *krate_index != dep,
                            })
                        })
"""))
k("nodes-loop", ("""                        let dep_kinds = dn
                            .dep_kinds
                            .into_iter()
                            .map(|dk| DepKindInfo {
                                kind: dk.kind.into(),
                                cfg: dk.target.map(MdTarget::from),
                            })
                            .collect();
""", """                        let mut dep_kinds = Vec::with_capacity(dn.dep_kinds.len());
                        for dk in dn.dep_kinds {
                            dep_kinds.push(DepKindInfo {
                                kind: dk.kind.into(),
                                cfg: dk.target.map(MdTarget::from),
                            });
                        }
"""))
k("version-unwrap", ("""                        let version = match pkg.version().parse() {
                            Ok(v) => v,
                            Err(err) => {
                                panic!(
                                    "failed to parse version '{}' from '{}': {err}",
                                    pkg.version(),
                                    pkg.repr
                                );
                            }
                        };
""", """                        let version = pkg.version().parse().unwrap_or_else(|err| {
                            panic!("failed to parse version '{}' from '{}': {err}", pkg.version(), pkg.repr)
                        });
"""))
k("sort-key", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));", "        nodes.sort_unstable_by(|a, b| a.id.cmp(&b.id));"))
k("pkg-sort-id", ("        packages.sort_by(|(a, _), (b, _)| a.cmp(b));", "        packages.sort_by(|a, b| a.0.cmp(&b.0));"))
k("default-contains", ("""                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
""", """                let has_default_feature = features.iter().any(|f| f == "default");
"""))
k("resolve-err", ("        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;", """        let Some(mut resolved) = md.resolve else {
            return Err(Error::NoResolveGraph);
        };"""))
k("opaque-match", ("""            .first()
            .is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() == 3);""", """            .first()
            .map_or(false, |rn| rn.id.repr.splitn(3, ' ').count() == 3);"""))
k("rename-find", ("""                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
                        else {
                            return false;
                        };
                        renames[i].1 == rdep.name
                    })
""", """                    let Some(renames) = self.inner.get(rdep.pkg.name()) else {
                        return false;
                    };
                    match renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version)) {
                        Ok(i) => renames[i].1 == rdep.name,
                        Err(_) => false,
                    }
"""))
k("rename-loop", ("""        for (_, pkg) in &packages {
            renames.maybe_insert(pkg);
        }
""", """        packages.iter().for_each(|(_, pkg)| renames.maybe_insert(pkg));
"""))
k("roots-else", ("""                if !self.workspace
                    && let Some(rkid) = &root
                {
                    roots.insert(rkid);
                }

                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
""", """                match &root {
                    Some(rkid) if !self.workspace => {
                        roots.insert(rkid);
                    }
                    _ => roots.extend(workspace_members.iter()),
                }
"""))
k("roots-for", ("""                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
            } else {""", """                if roots.is_empty() {
                    for wm in &workspace_members {
                        roots.insert(wm);
                    }
                }
            } else {"""))
k("roots-contains", ("if self.workspace_filters.iter().any(|wf| wf == mp) {", "if self.workspace_filters.iter().any(|wf| wf.as_path() == mp) {"))
k("paths-iter", ("""        loop {
            match (rcomp.next(), dcomp.next()) {
                (Some(r), Some(d)) => {
                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                _ => break,
            }
        }

        false
""", """        loop {
            match (rcomp.next(), dcomp.next()) {
                (Some(r), Some(d)) if r.as_str() == d => {}
                (None, None) => return true,
                _ => return false,
            }
        }
"""))
k("paths-match", ("""    let Some(rpath) = src.strip_prefix("path+file://") else {
        return false;
    };
""", """    let rpath = match src.strip_prefix("path+file://") {
        Some(p) => p,
        None => return false,
    };
"""))
k("is-root-inline", ("                is_root: is_root_crate(pid),", "                is_root: roots.contains(pid),"))
k("empty-check", ("        if dep_edge_map.is_empty() {\n            return Err(Error::NoRootKrates);\n        }\n", "        if dep_edge_map.len() == 0 {\n            return Err(Error::NoRootKrates);\n        }\n"))
k("in-ws-lazy", ("            let is_in_workspace = workspace_members.binary_search(pid).is_ok();\n", "            let is_in_workspace = workspace_members.iter().any(|wm| wm == pid);\n"))
k("strong-late", ("                        if dep.optional && !strong {\n                            return None;\n                        }\n", "                        if !(strong || !dep.optional) {\n                            return None;\n                        }\n"))
k("edges-forloop", ("                let edges = rdep.dep_kinds.iter().filter_map(|dk| {", "                let edges = rdep.dep_kinds.iter().flat_map(|dk| {"))
