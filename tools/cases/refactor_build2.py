"""Larger edits of build_with_metadata that keep its behaviour: every rule has to stay quiet"""
B = "src/builder.rs"
CASES = []


def k(n, *e):
    CASES.append(dict(n=n, p=None, e=[(B, o, w) for o, w in e]))


CAND1 = """                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
                            if dk.kind != dep.kind {
                                return false;
                            }

                            // Crates can rename the dependency package themselves
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                return false;
                            }

                            // Handle case where a dependency may not have a version requirement, which
                            // typically happens in the case of non-registry dependencies that use a pre-release
                            // semver, if the version _is_ a prelease it will never match the empty
                            // requirement
                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                return false;
                            }

                            crate::targets_eq(&dk.cfg, &dep.target)
                        }).count() > 1;
"""
CAND2 = """                                if dk.kind != dep.kind {
                                    return false;
                                }


                                // Crates can rename the dependency package themselves
                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                    return false;
                                }

                                // Handle case where a dependency may not have a version requirement, which
                                // typically happens in the case of non-registry dependencies that use a pre-release
                                // semver, if the version _is_ a prelease it will never match the empty
                                // requirement. Note this will pass through eg. path dependencies that don't specify a
                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                    return false;
                                }

                                if !crate::targets_eq(&dk.cfg, &dep.target) {
                                    return false;
                                }

                                if !multiple_candidates {
                                    return true;
                                }
"""
FINDHEAD = """                        let Some((dep_index, dep)) = krate
                            .dependencies
                            .iter()
                            .enumerate()
                            .find(|(_, dep)| {
"""
CLO = """                        let is_candidate = |dep: &cm::Dependency| -> bool {
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            dk.kind == dep.kind
                                && (maybe_real_name == dname || dep_names_match(dname, rdep))
                                && ((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version))
                                && crate::targets_eq(&dk.cfg, &dep.target)
                        };
"""
k("candidates-vec", (CAND1, CLO + """                        let candidates: Vec<(usize, &cm::Dependency)> = krate.dependencies.iter().enumerate().filter(|(_, dep)| is_candidate(dep)).collect();
                        let multiple_candidates = candidates.len() > 1;
"""), (FINDHEAD, """                        let Some((dep_index, dep)) = candidates
                            .into_iter()
                            .find(|(_, dep)| {
"""), (CAND2, """                                if !multiple_candidates {
                                    return true;
                                }
"""))
k("candidates-fn", (CAND1, """                        let multiple_candidates = krate.dependencies.iter().filter(|dep| dep_matches(dep, dk, rdep)).count() > 1;
"""), (CAND2, """                                if !dep_matches(dep, dk, rdep) {
                                    return false;
                                }
                                if !multiple_candidates {
                                    return true;
                                }
"""), ("""                let maybe_real_name = pkg.name();
""", ""), ("""                let rdep_version = &rdep.version;
                let has_prelease = !rdep_version.pre.is_empty();
""", ""), ("""        #[derive(Debug)]
        struct Node {
            id: Kid,""", """        fn dep_matches(dep: &cm::Dependency, dk: &DepKindInfo, rdep: &NodeDep) -> bool {
            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
            let version = &rdep.version;

            dk.kind == dep.kind
                && (rdep.pkg.name() == dname || dep_names_match(dname, rdep))
                && ((!version.pre.is_empty() && dep.req.comparators.is_empty()) || dep.req.matches(version))
                && crate::targets_eq(&dk.cfg, &dep.target)
        }

        #[derive(Debug)]
        struct Node {
            id: Kid,"""))
SRC_OLD = """                                if let Some(dsrc) = &dep.source {
                                    let psrc = rdep.pkg.source();
                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
                                        return dsrc == psrc;
                                    };

                                    // The opaque git sources can have the full revision spec at the end, which is not part of
                                    // source declaration
                                    let dgit = if is_opaque {
                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
                                    } else {
                                        dgit
                                    };

                                    dgit == pgit
                                } else if let Some(dpath) = &dep.path {
                                    compare_paths(dpath, rdep.pkg.source())
                                } else {
                                    false
                                }
"""
k("source-fn", (SRC_OLD, """                                sources_match(dep, rdep, is_opaque)
"""), ("""        #[derive(Debug)]
        struct Node {
            id: Kid,""", """        fn sources_match(dep: &cm::Dependency, rdep: &NodeDep, is_opaque: bool) -> bool {
            let psrc = rdep.pkg.source();
            match (&dep.source, &dep.path) {
                (Some(dsrc), _) => match dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) {
                    Some((dgit, pgit)) => {
                        let end = if is_opaque { dgit.rfind('#') } else { None };
                        match end {
                            Some(end) => &dgit[..end] == pgit,
                            None => dgit == pgit,
                        }
                    }
                    None => dsrc == psrc,
                },
                (None, Some(dpath)) => compare_paths(dpath, psrc),
                (None, None) => false,
            }
        }

        #[derive(Debug)]
        struct Node {
            id: Kid,"""))
k("source-split", ("dgit.rfind('#').map_or(dgit, |end| &dgit[..end])", "dgit.rsplit_once('#').map_or(dgit, |(base, _)| base)"))
k("edges-for", ("                let edges = rdep.dep_kinds.iter().filter_map(|dk| {\n", "                let to_edge = |dk: &'_ DepKindInfo| {\n") if 0 else
  ("                let mut edges = edges.peekable();\n                if edges.peek().is_none() {\n                    continue;\n                }\n", "                let mut edges = edges.peekable();\n                if edges.peek().is_some() {\n                } else {\n                    continue;\n                }\n"))
k("cfg-helper", ("""                                let matched = if let Some(expr) = &cfg.cfg {
                                    // We only need to focus on target predicates because they are
                                    // the only type of predicate allowed by cargo at the moment

                                    // While it might be nicer to evaluate all the targets for each predicate
                                    // it would lead to weird situations where an expression could evaluate to true
                                    // (or false) with a combination of platform, that would otherwise be impossible,
                                    // eg cfg(all(windows, target_env = "musl")) could evaluate to true
                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))
                                } else {
                                    // If it's not a cfg expression, it's just a fully specified target triple,
                                    // so we just do a string comparison
                                    targets.iter().any(|target| target.matches_triple(&cfg.inner))
                                };

                                if !matched {
                                    return None;
                                }
""", """                                if !any_target_matches(targets, cfg) {
                                    return None;
                                }
"""), ("""        #[derive(Debug)]
        struct Node {
            id: Kid,""", """        fn any_target_matches(targets: &[crate::builder::Target], cfg: &MdTarget) -> bool {
            targets.iter().any(|target| match &cfg.cfg {
                Some(expr) => expr.eval(|pred| target.eval(pred)),
                None => target.matches_triple(&cfg.inner),
            })
        }

        #[derive(Debug)]
        struct Node {
            id: Kid,"""))
k("cfg-restructure", ("""                        let cfg = if let Some(cfg) = &dk.cfg {
                            if !include_all_targets {
                                let matched = if let Some(expr) = &cfg.cfg {
                                    // We only need to focus on target predicates because they are
                                    // the only type of predicate allowed by cargo at the moment

                                    // While it might be nicer to evaluate all the targets for each predicate
                                    // it would lead to weird situations where an expression could evaluate to true
                                    // (or false) with a combination of platform, that would otherwise be impossible,
                                    // eg cfg(all(windows, target_env = "musl")) could evaluate to true
                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))
                                } else {
                                    // If it's not a cfg expression, it's just a fully specified target triple,
                                    // so we just do a string comparison
                                    targets.iter().any(|target| target.matches_triple(&cfg.inner))
                                };

                                if !matched {
                                    return None;
                                }
                            } else if let Some(expr) = &cfg.cfg {
                                // This is _basically_ a tortured way to evaluate `cfg(any())`, which is always false but
                                // is used by eg. serde -> serde_derive. If not filtering targets this would mean that
                                // serde_derive and all of its dependencies would be pulled into the graph, even if the
                                // only edge was the cfg(any()).

                                // We can't just do an eval and always return true, as that then would cause any
                                // not() expressions to evaluate to false
                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {
                                    return None;
                                }
                            }

                            Some(cfg.inner.as_str())
                        } else {
                            None
                        };
""", """                        if let Some(cfg) = &dk.cfg {
                            let keep = match (&cfg.cfg, include_all_targets) {
                                (Some(expr), false) => targets.iter().any(|target| expr.eval(|pred| target.eval(pred))),
                                (None, false) => targets.iter().any(|target| target.matches_triple(&cfg.inner)),
                                (Some(expr), true) => expr.predicates().count() > 0 || expr.eval(|_| true),
                                (None, true) => true,
                            };
                            if !keep {
                                return None;
                            }
                        }
                        let cfg = dk.cfg.as_ref().map(|cfg| cfg.inner.as_str());
"""))
k("p3-get", ("""                let node_id =
                    graph.raw_nodes()[krates_end..]
                        .iter()
                        .enumerate()
                        .find_map(|(i, n)| {
                            if let crate::Node::Feature { krate_index, name } = &n.weight
                                && let crate::Node::Krate { id, .. } = &graph[*krate_index]
                                && id == kid
                                && name == feature
                            {
                                Some(crate::NodeId::new(i + krates_end))
                            } else {
                                None
                            }
                        });

                node_id.unwrap_or_else(|| {""", """                get(graph, kid, Some(feature)).unwrap_or_else(|| {"""))
k("paths-eq", ("""        let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();""", """        let rcomp = camino::Utf8Path::new(&rpath[1..]).components();"""),
  ("""        let mut dcomp = dpath.as_str().split('\\\\');

        loop {
            match (rcomp.next(), dcomp.next()) {
                (Some(r), Some(d)) => {
                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                _ => break,
            }
        }

        false
""", """        let dcomp = dpath.as_str().split('\\\\');

        rcomp.map(|c| c.as_str()).eq(dcomp)
"""))
k("ws-contains", ("            let is_in_workspace = workspace_members.binary_search(pid).is_ok();\n", "            let is_in_workspace = workspace_members.contains(pid);\n"))
k("stack-vec", ("""        struct VisitStack<'s> {
            v: Vec<(&'s Kid, Option<usize>)>,
        }

        impl<'s> VisitStack<'s> {
            #[inline]
            fn push(&mut self, kid: &'s Kid) {
                self.v.push((kid, None));
            }

            #[inline]
            fn push_with_feature(&mut self, kid: &'s Kid, feat: usize) {
                self.v.push((kid, Some(feat)));
            }

            #[inline]
            fn pop(&mut self) -> Option<(&'s Kid, Option<usize>)> {
                self.v.pop()
            }
        }

        let mut visit_stack = VisitStack {
            v: Vec::with_capacity(roots.len()),
        };
""", """        trait Visit<'s> {
            fn push_crate(&mut self, kid: &'s Kid);
            fn push_with_feature(&mut self, kid: &'s Kid, feat: usize);
        }
        impl<'s> Visit<'s> for Vec<(&'s Kid, Option<usize>)> {
            fn push_crate(&mut self, kid: &'s Kid) {
                self.push((kid, None));
            }
            fn push_with_feature(&mut self, kid: &'s Kid, feat: usize) {
                self.push((kid, Some(feat)));
            }
        }
        let mut visit_stack: Vec<(&Kid, Option<usize>)> = Vec::with_capacity(roots.len());
"""), ("            visit_stack.push(root);\n", "            visit_stack.push_crate(root);\n"),
  ("                    visit_stack.push(pid);\n", "                    visit_stack.push_crate(pid);\n"),
  ("""                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
                            if let""", """                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push_crate(vd);
                            if let"""),
  ("""                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let""", """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push_crate(vd);
                        if let"""))
k("nodedep-fn", ("""                        let pkg = Kid::from(dn.pkg);
                        let version = match pkg.version().parse() {
                            Ok(v) => v,
                            Err(err) => {
                                panic!(
                                    "failed to parse version '{}' from '{}': {err}",
                                    pkg.version(),
                                    pkg.repr
                                );
                            }
                        };
""", """                        let pkg = Kid::from(dn.pkg);
                        let version = parse_version(&pkg);
"""), ("""        #[derive(Debug)]
        struct Node {
            id: Kid,""", """        fn parse_version(pkg: &Kid) -> semver::Version {
            match semver::Version::parse(pkg.version()) {
                Ok(v) => v,
                Err(err) => panic!("failed to parse version '{}' from '{}': {err}", pkg.version(), pkg.repr),
            }
        }

        #[derive(Debug)]
        struct Node {
            id: Kid,"""))
k("packages-for", ("""        let mut packages: Vec<_> = md
            .packages
            .into_iter()
            .map(|pkg| (Kid::from(pkg.id.clone()), pkg))
            .collect();
""", """        let mut packages = Vec::with_capacity(md.packages.len());
        for pkg in md.packages {
            packages.push((Kid::from(pkg.id.clone()), pkg));
        }
"""))
k("members-for", ("""        let mut workspace_members: Vec<_> =
            md.workspace_members.into_iter().map(Kid::from).collect();
""", """        let mut workspace_members: Vec<Kid> = Vec::new();
        for wm in md.workspace_members {
            workspace_members.push(wm.into());
        }
"""))
k("filtered-else", ("""            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };

            let rnode = get_rnode(&id);
""", """            let pn = dep_edge_map.get(&id);
            if pn.is_none() {
                on_filter.filtered(krate);
                continue;
            }
            let pn = pn.unwrap();
            let rnode = get_rnode(&id);
"""))
k("feats-take", ("""                    if let Some(features) = features.take() {
                        if let Some(vd) = visit_dep.take() {""", """                    if features.is_some() {
                        let features = features.take().unwrap();
                        if let Some(vd) = visit_dep.take() {"""))
PW = """                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
                                for feat in kf {
                                    visit_stack.push_with_feature(vd, feat);
                                    dep.features.insert(feat);
                                }
                            }
"""
PW2 = """                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut"""
k("pending-fn", (PW, "                            apply_pending(krate_features, dep, &mut visit_stack, vd);\n"),
  (PW2, "                        apply_pending(krate_features, dep, &mut visit_stack, vd);\n                    }\n\n                    let mut"),
  ("        let get_rnode = |pid: &Kid| &nodes[", """        fn apply_pending<'p>(kf: &mut KrateFeatures<'p>, dep: &mut KrateDependency, stack: &mut VisitStack<'p>, vd: &'p Kid) {
            let Some(pending) = kf.pending_weak.remove(vd) else {
                return;
            };
            for feat in pending {
                stack.push_with_feature(vd, feat);
                dep.features.insert(feat);
            }
        }

        let get_rnode = |pid: &Kid| &nodes["""))
k("visit-hoist", ("""                    if let Some(features) = features.take() {
                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
""" + PW + """                        }

                        for feat in features {
                            visit_stack.push_with_feature(pkg, feat);
                            dep.features.insert(feat);
                        }
                    }
""", """                    if let Some(features) = features.take() {
                        if let Some(vd) = visit_dep.take() {
                            visit_stack.push(vd);
""" + PW + """                        }

                        dep.features.extend(features.iter().copied());
                        for feat in features {
                            visit_stack.push_with_feature(pkg, feat);
                        }
                    }
"""))
k("feature-graph-fn", ("""                                match sf.feat() {
                                    Feature::Krate(krate_name) => {
                                        let kid = get_dep_id(krate_name)?;
                                        let real_name = kid.name();

                                        Some(FeatureEdge {
                                            kid,
                                            name: if real_name != krate_name {
                                                FeatureEdgeName::Rename(krate_name.to_owned())
                                            } else {
                                                FeatureEdgeName::Krate
                                            },
                                        })
                                    }
                                    Feature::Simple(s) => Some(FeatureEdge {
                                        kid: pid,
                                        name: FeatureEdgeName::Feature(s.to_owned()),
                                    }),
                                    Feature::Strong {
                                        krate: krate_name,
                                        feature,
                                    } => Some(FeatureEdge {
                                        kid: get_dep_id(krate_name)?,
                                        name: FeatureEdgeName::Feature(feature.to_owned()),
                                    }),
                                    Feature::Weak {
                                        krate: krate_name,
                                        feature,
                                    } => {
                                        if rnode.features.iter().any(|kn| kn == krate_name) {
                                            Some(FeatureEdge {
                                                kid: get_dep_id(krate_name)?,
                                                name: FeatureEdgeName::Feature(feature.to_owned()),
                                            })
                                        } else {
                                            None
                                        }
""", """                                let (kid, name) = match sf.feat() {
                                    Feature::Krate(krate_name) => {
                                        let kid = get_dep_id(krate_name)?;
                                        let name = if kid.name() != krate_name {
                                            FeatureEdgeName::Rename(krate_name.to_owned())
                                        } else {
                                            FeatureEdgeName::Krate
                                        };
                                        (kid, name)
                                    }
                                    Feature::Simple(s) => (pid, FeatureEdgeName::Feature(s.to_owned())),
                                    Feature::Strong { krate, feature } => (get_dep_id(krate)?, FeatureEdgeName::Feature(feature.to_owned())),
                                    Feature::Weak { krate, feature } => {
                                        if !rnode.features.iter().any(|kn| kn == krate) {
                                            return None;
                                        }
                                        (get_dep_id(krate)?, FeatureEdgeName::Feature(feature.to_owned()))
"""), ("""                                        // } => Some(FeatureEdge {
                                        //     kid: get_dep_id(krate_name)?,
                                        //     name: FeatureEdgeName::Feature(feature.to_owned()),
                                        // }),
                                    }
                                }
                            })""", """                                    }
                                };

                                Some(FeatureEdge { kid, name })
                            })"""))
k("root-fn", ("""                if self.workspace_filters.len() == 1
                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
                {""", """                let only_root = match self.workspace_filters.as_slice() {
                    [only] => only.parent() == Some(md.workspace_root.as_ref()),
                    _ => false,
                };
                if only_root {"""))
k("canon-match", ("""                            let manifest_path = mp.canonicalize();

                            let mp = manifest_path.as_deref().unwrap_or(mp);
                            if self.workspace_filters.iter().any(|wf| wf == mp) {
                                roots.insert(wm);
                            }
""", """                            let mp = match mp.canonicalize() {
                                Ok(canonical) => canonical,
                                Err(_) => mp.to_path_buf(),
                            };
                            for wf in &self.workspace_filters {
                                if *wf == mp {
                                    roots.insert(wm);
                                    break;
                                }
                            }
"""))
k("p3-inverted", ("""                    let target_id = if let Some(target_id) =
                        get(&graph, sub_feat.kid, feat_name.as_deref())
                    {
                        target_id
                    } else if is_dep_feature
                        && get""", """                    let existing = get(&graph, sub_feat.kid, feat_name.as_deref());
                    let target_id = if let Some(target_id) = existing {
                        target_id
                    } else if is_dep_feature
                        && get"""))
k("deps-tuple", ("            for (pkg, (rdep, mut features)) in deps {\n", "            for (pkg, entry) in deps {\n                let (rdep, mut features) = entry;\n"))
k("kid-from-into", ("                let id = Kid::from(rn.id);\n", "                let id: Kid = rn.id.into();\n"))
k("pending-entry", ("""                        krate_features
                            .pending_weak
                            .entry(&ndep.pkg)
                            .or_default()
                            .insert(feature);
                        continue;
""", """                        let pending = krate_features.pending_weak.entry(&ndep.pkg).or_insert_with(BTreeSet::new);
                        pending.insert(feature);
                        continue;
"""))
k("class-tuple", ("""                    let (krate_name, feature) = match pf.feat() {
                        Feature::Simple(feat) => {
                            visit_stack.push_with_feature(pid, rnode.feature_index(feat));
                            continue;
                        }
                        Feature::Krate(krate) => (krate, None),
                        Feature::Strong { krate, feature } | Feature::Weak { krate, feature } => {
                            (krate, Some(feature))
                        }
                    };
""", """                    let (krate_name, feature, is_weak) = match pf.feat() {
                        Feature::Simple(feat) => {
                            visit_stack.push_with_feature(pid, rnode.feature_index(feat));
                            continue;
                        }
                        Feature::Krate(krate) => (krate, None, false),
                        Feature::Strong { krate, feature } => (krate, Some(feature), false),
                        Feature::Weak { krate, feature } => (krate, Some(feature), true),
                    };
"""), ("                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });\n", ""))
k("actual-contains", ("""                if !krate_features.actual.insert(feature) {
                    unreachable!();
                }
""", """                let newly_added = krate_features.actual.insert(feature);
                assert!(newly_added);
"""))
k("featset-swap", ("""            let features = if pn.is_root {
                rnode.features.iter().cloned().collect()
            } else {
                feature_edge_map[&id]
                    .actual
                    .iter()
                    .map(|k| rnode.feature(*k).to_owned())
                    .collect()
            };
""", """            let features = if !pn.is_root {
                let actual = &feature_edge_map[&id].actual;
                actual.iter().map(|k| rnode.features[*k].clone()).collect()
            } else {
                rnode.features.iter().cloned().collect()
            };
"""))
k("addnode-inline", ("""            let krate = crate::Node::Krate {
                id,
                krate: N::from(krate),
                features,
                dep_mapping,
            };

            graph.add_node(krate);
            edge_count += pn.deps.len();
""", """            edge_count += pn.deps.len();
            let num_deps = dep_mapping.len();
            debug_assert!(num_deps == dep_mapping.len());
            graph.add_node(crate::Node::Krate {
                id,
                features,
                dep_mapping,
                krate: krate.into(),
            });
"""))
k("attach-fn", ("""                // Add the features that were toggled on via a parent crate feature
                for feat in dep.features {
                    let feat = rnode.feature(feat);
                    attach(&mut graph, feat.to_owned(), Edge::Feature);
                }
""", """                // Add the features that were toggled on via a parent crate feature
                dep.features
                    .into_iter()
                    .map(|feat| rnode.feature(feat).to_owned())
                    .for_each(|feat| attach(&mut graph, feat, Edge::Feature));
"""))
