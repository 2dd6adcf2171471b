B, L, CMD, I, F, D, S, CM, SER = "src/builder.rs", "src/lib.rs", "src/cm/cmd.rs", "src/builder/index.rs", "src/builder/features.rs", "src/cm/de.rs", "src/pkgspec.rs", "src/cm.rs", "src/cm/ser.rs"
CASES = []


def c(n, p, *e):
    CASES.append(dict(n=n, p=p, e=list(e)))


# --- kinds and scope
c("g-kindflag-fn", None, (B, """        let kind_flag = match kind {
            DepKind::Normal => 0x1,
            DepKind::Dev => 0x8,
            DepKind::Build => 0x40,
        };

        self.ignore_kinds |= kind_flag;

        self.ignore_kinds |= match scope {
            Scope::Workspace => kind_flag << 1,
            Scope::NonWorkspace => kind_flag << 2,
            Scope::All => (kind_flag << 1) | (kind_flag << 2),
        };
""", """        let kind_flag = kind_mask(kind);
        let scope_flags = match scope {
            Scope::Workspace => 0b10,
            Scope::NonWorkspace => 0b100,
            Scope::All => 0b110,
        };

        self.ignore_kinds |= kind_flag | (kind_flag * scope_flags);
"""), (B, """                        let mask = match dk.kind {
                            DepKind::Normal => 0x1,
                            DepKind::Dev => 0x8,
                            DepKind::Build => 0x40,
                        };

                        let mask = mask | (mask << if is_in_workspace { 1 } else { 2 });
                        if mask & ignore_kinds == mask {
                            return None;
                        }
""", """                        let kind_flag = kind_mask(dk.kind);
                        let scope_flag = if is_in_workspace { kind_flag << 1 } else { kind_flag << 2 };
                        if ignore_kinds & kind_flag != 0 && ignore_kinds & scope_flag != 0 {
                            return None;
                        }
"""), (B, """#[inline]
fn compare_paths(""", """#[inline]
fn kind_mask(kind: DepKind) -> u32 {
    match kind {
        DepKind::Normal => 0x1,
        DepKind::Dev => 0x8,
        DepKind::Build => 0x40,
    }
}

#[inline]
fn compare_paths("""))
c("g-mask-any", "C03", (B, """                        if mask & ignore_kinds == mask {""", """                        if mask & ignore_kinds != 0 {"""))
c("g-mask-member-const", None, (B, """                        let mask = mask | (mask << if is_in_workspace { 1 } else { 2 });
""", """                        let mask = if is_in_workspace { mask * 3 } else { mask * 5 };
"""))
c("g-inws-any", None, (B, """workspace_members.binary_search(pid).is_ok();""", """workspace_members.iter().any(|wm| wm == pid);"""))
c("g-inws-contains", None, (B, """workspace_members.binary_search(pid).is_ok();""", """workspace_members.contains(pid);"""))
c("g-inws-name", "C03", (B, """workspace_members.binary_search(pid).is_ok();""", """workspace_members.iter().any(|wm| wm.name() == pid.name());"""))
# --- exclusion
c("g-excl-fn", None, (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {
                continue;
            }
""", """            let is_excluded = |krate: &crate::Package| exclude.iter().any(|exc| exc.matches(krate));
            if is_excluded(krate) {
                continue;
            }
"""))
c("g-excl-loop", None, (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {
                continue;
            }
""", """            let mut excluded = false;
            for spec in &exclude {
                if spec.matches(krate) {
                    excluded = true;
                    break;
                }
            }
            if excluded {
                continue;
            }
"""))
c("g-excl-label", None, (B, """        while let Some((pid, feature)) = visit_stack.pop() {
            if check""", """        'visit: while let Some((pid, feature)) = visit_stack.pop() {
            if check"""), (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {
                continue;
            }
""", """            for spec in &exclude {
                if spec.matches(krate) {
                    continue 'visit;
                }
            }
"""))
c("g-excl-root", "C01", (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {""", """            if !is_root_crate(pid) && exclude.iter().any(|exc| exc.matches(krate)) {"""))
c("g-excl-not-ws", "C01", (B, """            if exclude.iter().any(|exc| exc.matches(krate)) {""", """            if exclude.iter().any(|exc| exc.matches(krate) && (exc.url.is_some() || !is_in_workspace || exc.version.is_none())) {"""))
# --- roots
c("g-roots-vec-first", None, (B, """                if !self.workspace
                    && let Some(rkid) = &root
                {
                    roots.insert(rkid);
                }

                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
""", """                match &root {
                    Some(rkid) if !self.workspace => {
                        roots.insert(rkid);
                    }
                    _ => roots.extend(workspace_members.iter()),
                }
"""))
c("g-roots-both", "C07", (B, """                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
""", """                if roots.is_empty() || md.workspace_default_members.len() > 1 {
                    roots.extend(workspace_members.iter());
                }
""") if False else (B, """                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
""", """                if roots.is_empty() || workspace_members.first() == root.as_ref() {
                    roots.extend(workspace_members.iter());
                }
"""))
c("g-roots-filter-iter", None, (B, """                    for wm in &workspace_members {
                        if let Ok(i) = packages.binary_search_by(|(id, _pkg)| id.cmp(wm)) {
                            let mp = packages[i].1.manifest_path.as_std_path();
                            let manifest_path = mp.canonicalize();

                            let mp = manifest_path.as_deref().unwrap_or(mp);
                            if self.workspace_filters.iter().any(|wf| wf == mp) {
                                roots.insert(wm);
                            }
                        }
                    }
""", """                    roots.extend(workspace_members.iter().filter(|wm| {
                        let Some((_, package)) = packages.iter().find(|(id, _)| id == *wm) else {
                            return false;
                        };
                        let manifest = package.manifest_path.as_std_path();
                        let canonical = manifest
                            .canonicalize()
                            .unwrap_or_else(|_| manifest.to_owned());
                        self.workspace_filters.contains(&canonical)
                    }));
"""))
c("g-roots-startswith", "C07", (B, """if self.workspace_filters.iter().any(|wf| wf == mp) {""", """if self.workspace_filters.iter().any(|wf| wf == mp || wf.parent().is_some_and(|p| mp.starts_with(p))) {"""))
c("g-roots-push-rev", None, (B, """            for feat in 0..rnode.features.len() {
                visit_stack.push_with_feature(root, feat);
            }
""", """            rnode
                .features
                .iter()
                .enumerate()
                .for_each(|(feat, _)| visit_stack.push_with_feature(root, feat));
"""))
c("g-roots-nodefault", "C08", (B, """            for feat in 0..rnode.features.len() {
                visit_stack.push_with_feature(root, feat);
            }
""", """            for feat in 0..rnode.features.len() {
                if rnode.feature(feat) == "default" && rnode.features.len() > 1 {
                    continue;
                }
                visit_stack.push_with_feature(root, feat);
            }
"""))
c("g-canon-match", None, (B, """            let p = p.canonicalize().unwrap_or_else(|_| p.to_owned());

            if !p.ends_with("Cargo.toml") {
                p.join("Cargo.toml")
            } else {
                p
            }
""", """            let mut p = match p.canonicalize() {
                Ok(canonical) => canonical,
                Err(_) => p.to_owned(),
            };

            if !p.ends_with("Cargo.toml") {
                p.push("Cargo.toml");
            }

            p
"""))
# --- targets
c("g-target-any-flip", None, (B, """                                let matched = if let Some(expr) = &cfg.cfg {
                                    // We only need to focus on target predicates because they are
                                    // the only type of predicate allowed by cargo at the moment

                                    // While it might be nicer to evaluate all the targets for each predicate
                                    // it would lead to weird situations where an expression could evaluate to true
                                    // (or false) with a combination of platform, that would otherwise be impossible,
                                    // eg cfg(all(windows, target_env = "musl")) could evaluate to true
                                    targets
                                        .iter()
                                        .any(|target| expr.eval(|pred| target.eval(pred)))
                                } else {
                                    // If it's not a cfg expression, it's just a fully specified target triple,
                                    // so we just do a string comparison
                                    targets.iter().any(|target| target.matches_triple(&cfg.inner))
                                };
""", """                                let matched = targets.iter().any(|target| match &cfg.cfg {
                                    Some(expr) => expr.eval(|pred| target.eval(pred)),
                                    None => target.matches_triple(&cfg.inner),
                                });
"""))
c("g-target-method", None, (B, """                                        .any(|target| expr.eval(|pred| target.eval(pred)))""", """                                        .any(|target| target.eval_expr(expr))"""), (B, """    fn matches_triple(&self, triple: &str) -> bool {""", """    fn eval_expr(&self, expr: &cfg_expr::Expression) -> bool {
        expr.eval(|pred| self.eval(pred))
    }

    fn matches_triple(&self, triple: &str) -> bool {"""))
c("g-target-not-all", None, (B, """                                        .any(|target| expr.eval(|pred| target.eval(pred)))""", """                                        .all(|target| !expr.eval(|pred| target.eval(pred))) == false"""))
c("g-target-all", "C04", (B, """                                        .any(|target| expr.eval(|pred| target.eval(pred)))""", """                                        .all(|target| expr.eval(|pred| target.eval(pred)))"""))
c("g-target-feat-any", None, (B, """                self.features.iter().any(|f| f == feat)""", """                self.features.iter().any(|f| f.as_str() == *feat)"""))
c("g-target-feat-pre", "C04", (B, """                self.features.iter().any(|f| f == feat)""", """                self.features.iter().any(|f| f.starts_with(*feat))"""))
c("g-target-bare", "C04", (B, """            Target::Unknown(unknown) => unknown == triple,""", """            Target::Unknown(unknown) => triple.starts_with(unknown.as_str()),"""))
c("g-target-err", "C04", (B, "                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {", "                                if !expr.eval(|_| true) {"))
# --- matching declarations
c("g-cand-closure", None, (B, """                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
                            if dk.kind != dep.kind {
                                return false;
                            }

                            // Crates can rename the dependency package themselves
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                return false;
                            }

                            // Handle case where a dependency may not have a version requirement, which
                            // typically happens in the case of non-registry dependencies that use a pre-release
                            // semver, if the version _is_ a prelease it will never match the empty
                            // requirement
                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                return false;
                            }

                            crate::targets_eq(&dk.cfg, &dep.target)
                        }).count() > 1;
""", """                        let is_candidate = |dep: &crate::cm::Dependency| {
                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);

                            dk.kind == dep.kind
                                && (maybe_real_name == dname || dep_names_match(dname, rdep))
                                && ((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version))
                                && crate::targets_eq(&dk.cfg, &dep.target)
                        };
                        let multiple_candidates = krate.dependencies.iter().filter(|dep| is_candidate(dep)).nth(1).is_some();
"""), (B, """                                if dk.kind != dep.kind {
                                    return false;
                                }


                                // Crates can rename the dependency package themselves
                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                    return false;
                                }

                                // Handle case where a dependency may not have a version requirement, which
                                // typically happens in the case of non-registry dependencies that use a pre-release
                                // semver, if the version _is_ a prelease it will never match the empty
                                // requirement. Note this will pass through eg. path dependencies that don't specify a
                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                    return false;
                                }

                                if !crate::targets_eq(&dk.cfg, &dep.target) {
                                    return false;
                                }
""", """                                if !is_candidate(dep) {
                                    return false;
                                }
"""))
c("g-cand-vec", None, (B, """                        }).count() > 1;

                        let Some((dep_index, dep)) = krate
                            .dependencies
                            .iter()
                            .enumerate()
                            .find(|(_, dep)| {""", """                        }).count() >= 2;

                        let Some(dep_index) = krate
                            .dependencies
                            .iter()
                            .position(|dep| {"""), (B, """                            }) else {
                                unreachable!("cargo metadata resolved a dependency for""", """                            }) else {
                                unreachable!("cargo metadata resolved a dependency for""") if False else (B, """                        if dep.optional && !strong {""", """                        let dep = &krate.dependencies[dep_index];

                        if dep.optional && !strong {"""))
c("g-cand-all-src", "C06", (B, """                                if !multiple_candidates {
                                    return true;
                                }
""", """                                if !multiple_candidates || dep.path.is_none() && dep.registry.is_none() && !is_opaque {
                                    return true;
                                }
"""))
c("g-cand-last", None, (B, """                            .iter()
                            .enumerate()
                            .find(|(_, dep)| {""", """                            .iter()
                            .enumerate()
                            .rev()
                            .find(|(_, dep)| {"""))
c("g-src-if", None, (B, """                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
                                        return dsrc == psrc;
                                    };
""", """                                    let (dgit, pgit) = match (dsrc.strip_prefix("git+"), psrc.strip_prefix("git+")) {
                                        (Some(dgit), Some(pgit)) => (dgit, pgit),
                                        _ => return dsrc == psrc,
                                    };
"""))
c("g-src-split", None, (B, """                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])""", """                                        dgit.rsplit_once('#').map_or(dgit, |(before, _)| before)"""))
c("g-src-query", "C06", (B, """                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])""", """                                        dgit.find(['?', '#']).map_or(dgit, |end| &dgit[..end])"""))
c("g-paths-zip", None, (B, """        loop {
            match (rcomp.next(), dcomp.next()) {
                (Some(r), Some(d)) => {
                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                _ => break,
            }
        }

        false
""", """        rcomp.by_ref().map(|r| r.as_str()).eq(dcomp.by_ref())
"""))
c("g-paths-short", "C06", (B, """                (None, None) => {
                    return true;
                }
                _ => break,""", """                (_, None) => {
                    return true;
                }
                _ => break,"""))
c("g-pre-req", "C06", (B, """let has_prelease = !rdep_version.pre.is_empty();""", """let has_prelease = !rdep_version.pre.is_empty() || !rdep_version.build.is_empty();"""))
# --- optional, weak
c("g-opt-split", None, (B, """                        if dep.optional && !strong {
                            return None;
                        }
""", """                        if !strong {
                            if dep.optional {
                                return None;
                            }
                        }
"""))
c("g-opt-ws", "C05", (B, """                        if dep.optional && !strong {""", """                        if dep.optional && !strong && !(is_root_crate(pid) && dep.features.is_empty()) {"""))
c("g-weak-early", None, (B, """                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });

                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {""", """                    let dep_is_active = pn.deps.contains_key(&ndep.pkg);

                    if !dep_is_active && matches!(pf.feat(), Feature::Weak { .. }) {"""))
c("g-weak-strong", "C05", (B, """                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {""", """                    if is_weak && !pn.deps.contains_key(&ndep.pkg) && !rnode.features.iter().any(|f| f == krate_name) {"""))
c("g-pending-extend", None, (B, """                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
                        deps.entry(&ndep.pkg)
                            .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                            .1
                            .as_mut()
                            .unwrap()
                            .append(&mut pending);
                    }

                    let feats = deps
                        .entry(&ndep.pkg)
                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                        .1
                        .as_mut()
                        .unwrap();

                    if let Some(feature) = feature {
                        feats.insert(rdep_node.feature_index(feature));
                    }
""", """                    let pending = krate_features.pending_weak.remove(&ndep.pkg);
                    let (_, feats) = deps
                        .entry(&ndep.pkg)
                        .or_insert_with(|| (ndep, Some(BTreeSet::new())));
                    let feats = feats.as_mut().unwrap();

                    feats.extend(pending.into_iter().flatten());
                    feats.extend(feature.map(|feature| rdep_node.feature_index(feature)));
"""))
c("g-visit-helper", None, (B, """        let check = |map: &BTreeMap<&Kid, KrateFeatures<'_>>, pid: &Kid, feature: Option<usize>| {
            map.get(pid).is_some_and(|pn| {
                if let Some(feat) = feature {
                    pn.actual.contains(&feat)
                } else {
                    pn.filled_non_optional
                }
            })
        };
""", """        fn check(map: &BTreeMap<&Kid, KrateFeatures<'_>>, pid: &Kid, feature: Option<usize>) -> bool {
            let Some(seen) = map.get(pid) else {
                return false;
            };
            match feature {
                Some(feat) => seen.actual.contains(&feat),
                None => seen.filled_non_optional,
            }
        }
"""))
c("g-feature-loop-idx", None, (B, """                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    }
""", """                        features.push(rdep_node.feature_index(feat));
                    }
                    for feat in &features {
                        visit_stack.push_with_feature(pkg, *feat);
                    }
"""))
c("g-default-if", None, (B, """                    for feat in edge
                        .features
                        .iter()
                        .map(|f| f.as_str())
                        .chain(edge.uses_default_features.then_some("default"))
                    {
                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    }
""", """                    let mut request = |feat: &str| {
                        let feat_index = rdep_node.feature_index(feat);
                        visit_stack.push_with_feature(pkg, feat_index);
                        features.push(feat_index);
                    };
                    for feat in edge.features {
                        request(feat);
                    }
                    if edge.uses_default_features {
                        request("default");
                    }
"""))
c("g-default-only-empty", "C08", (B, """                        .chain(edge.uses_default_features.then_some("default"))""", """                        .chain((edge.uses_default_features && edge.features.is_empty()).then_some("default"))"""))
c("g-default-skip-dev", "C08", (B, """                            uses_default_features: dep.uses_default_features && rdep_node.has_default_feature,""", """                            uses_default_features: dep.uses_default_features && rdep_node.has_default_feature && !(dk.kind == DepKind::Dev && dep.features.len() > 2),"""))
# --- graph
c("g-filtered-match", None, (B, """            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };
""", """            let pn = match dep_edge_map.get(&id) {
                Some(pn) => pn,
                None => {
                    on_filter.filtered(krate);
                    continue;
                }
            };
"""))
c("g-filtered-part", "C02", (B, """            let Some(pn) = dep_edge_map.get(&id) else {
                on_filter.filtered(krate);
                continue;
            };
""", """            let Some(pn) = dep_edge_map.get(&id) else {
                if !exclude.iter().any(|e| e.url.is_some() && e.matches(&krate)) {
                    on_filter.filtered(krate);
                }
                continue;
            };
"""))
c("g-nodefeat-loop", None, (B, """            let features = if pn.is_root {
                rnode.features.iter().cloned().collect()
            } else {
                feature_edge_map[&id]
                    .actual
                    .iter()
                    .map(|k| rnode.feature(*k).to_owned())
                    .collect()
            };
""", """            let mut features = BTreeSet::new();
            if pn.is_root {
                features.extend(rnode.features.iter().cloned());
            } else {
                for k in &feature_edge_map[&id].actual {
                    features.insert(rnode.feature(*k).to_owned());
                }
            }
"""))
c("g-nodefeat-root-actual", None, (B, """            let features = if pn.is_root {
                rnode.features.iter().cloned().collect()
            } else {
                feature_edge_map""", """            let features = if pn.is_root {
                rnode.features.to_vec().into_iter().collect()
            } else {
                feature_edge_map"""))
c("g-mapping-collect", None, (B, """            let dep_mapping = vec![None; krate.dependencies.len()];
""", """            let dep_mapping = krate.dependencies.iter().map(|_| None).collect();
"""))
c("g-mapping-node", None, (B, """                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }

                    if attach_direct_edge {""", """                    match &mut graph[srcid] {
                        crate::Node::Krate { dep_mapping, .. } => {
                            dep_mapping[edge.dep_index].replace(target_krate);
                        }
                        crate::Node::Feature { .. } => {}
                    }

                    if attach_direct_edge {"""))
c("g-mapping-cfg", "C14", (B, """                        dep_mapping[edge.dep_index] = Some(target_krate);""", """                        if edge.cfg.is_none() || dep_mapping.iter().all(|m| m.is_none()) {
                            dep_mapping[edge.dep_index] = Some(target_krate);
                        }"""))
c("g-edge-if-else", None, (B, """                    let attach_direct_edge = edge.features.is_empty();

                    for feat in edge.features {
                        let feat = rnode.feature(feat);
                        attach(
                            &mut graph,
                            feat.to_owned(),
                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: edge.cfg.clone(),
                            },
                        );
                    }

                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }

                    if attach_direct_edge {
                        graph.add_edge(
                            srcid,
                            target_krate,
                            Edge::Dep {
                                kind: edge.kind,
                                cfg: edge.cfg,
                            }
                            .into(),
                        );
                    }
""", """                    if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {
                        dep_mapping[edge.dep_index] = Some(target_krate);
                    }

                    if edge.features.is_empty() {
                        let direct = Edge::Dep {
                            kind: edge.kind,
                            cfg: edge.cfg,
                        };
                        graph.add_edge(srcid, target_krate, direct.into());
                        continue;
                    }

                    for feat in edge.features {
                        let name = rnode.feature(feat).to_owned();
                        let (kind, cfg) = (edge.kind, edge.cfg.clone());
                        attach(&mut graph, name, Edge::DepFeature { kind, cfg });
                    }
"""))
c("g-edge-nocfg", "C09", (B, """                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: edge.cfg.clone(),
                            },""", """                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: edge.cfg.clone().filter(|c| c.starts_with("cfg(")),
                            },"""))
c("g-get-match", None, (B, """                        if let crate::Node::Krate { id, .. } = &n.weight {
                            if id == kid {
                                return Some(crate::NodeId::new(i));
                            }
                        }

                        None
                    })
            }
        };
""", """                        match &n.weight {
                            crate::Node::Krate { id, .. } if id == kid => Some(crate::NodeId::new(i)),
                            _ => None,
                        }
                    })
            }
        };
"""))
c("g-get-bsearch", None, (B, """                graph.raw_nodes()[..krates_end]
                    .iter()
                    .enumerate()
                    .find_map(|(i, n)| {
                        if let crate::Node::Krate { id, .. } = &n.weight {
                            if id == kid {
                                return Some(crate::NodeId::new(i));
                            }
                        }

                        None
                    })
            }
        };
""", """                graph.raw_nodes()[..krates_end]
                    .iter()
                    .position(|n| matches!(&n.weight, crate::Node::Krate { id, .. } if id == kid))
                    .map(crate::NodeId::new)
            }
        };
"""))
c("g-enabled-retain", None, (B, """                let Some((_parent, sub_features)) = enabled
                    .iter()
                    .position(|(k, _)| *k == feat)
                    .map(|i| enabled.swap_remove(i))
                else {
                    continue;
                };
""", """                let Some(index) = enabled.iter().position(|(k, _)| *k == feat) else {
                    continue;
                };
                let (_parent, sub_features) = enabled.remove(index);
"""))
c("g-featname-or", None, (B, """                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(feat) => Some(feat),
                        FeatureEdgeName::Rename(kname) => Some(kname),
                        FeatureEdgeName::Krate => None,
                    };
""", """                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(name) | FeatureEdgeName::Rename(name) => Some(name),
                        FeatureEdgeName::Krate => None,
                    };
"""))
c("g-noroots-early", None, (B, """        if dep_edge_map.is_empty() {
            return Err(Error::NoRootKrates);
        }

        let mut graph = petgraph::Graph::<crate::Node<N>, E>::new();
        graph.reserve_nodes(dep_edge_map.len());
""", """        let node_count = dep_edge_map.len();
        if node_count == 0 {
            return Err(Error::NoRootKrates);
        }

        let mut graph = petgraph::Graph::<crate::Node<N>, E>::with_capacity(node_count, node_count);
"""))
c("g-resolve-match", None, (B, """        let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;
""", """        let Some(mut resolved) = md.resolve else {
            return Err(Error::NoResolveGraph);
        };
"""))
c("g-pkgs-key", None, (B, """        packages.sort_by(|(a, _), (b, _)| a.cmp(b));
""", """        packages.sort_unstable_by(|(a, _), (b, _)| a.cmp(b));
"""))
c("g-pkgs-cached", None, (B, """        nodes.sort_by(|a, b| a.id.cmp(&b.id));
""", """        nodes.sort_unstable_by(|a, b| a.id.cmp(&b.id));
"""))
c("g-nodes-rev", "C11", (B, """        nodes.sort_by(|a, b| a.id.cmp(&b.id));
""", """        nodes.sort_by(|a, b| a.id.repr.cmp(&b.id.repr));
"""))
c("g-deps-unsorted", None, (B, """                deps.sort_by(|a, b| a.pkg.cmp(&b.pkg));
""", """                deps.sort_by_key(|a| std::cmp::Reverse(std::cmp::Reverse(a.pkg.repr.clone())));
                deps.sort_by(|a, b| a.pkg.cmp(&b.pkg));
"""))
c("g-default-contains", None, (B, """                let has_default_feature = features
                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();
""", """                let has_default_feature = features.iter().any(|f| f == "default");
"""))
c("g-version-expect", None, (B, """                        let version = match pkg.version().parse() {
                            Ok(v) => v,
                            Err(err) => {
                                panic!(
                                    "failed to parse version '{}' from '{}': {err}",
                                    pkg.version(),
                                    pkg.repr
                                );
                            }
                        };
""", """                        let version = pkg.version().parse().unwrap_or_else(|err| {
                            panic!(
                                "failed to parse version '{}' from '{}': {err}",
                                pkg.version(),
                                pkg.repr
                            )
                        });
"""))
c("g-opaque-match", None, (B, """        let is_opaque = resolved
            .nodes
            .first()
            .is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() == 3);
""", """        let is_opaque = match resolved.nodes.first() {
            Some(rn) => rn.id.repr.splitn(3, ' ').count() == 3,
            None => false,
        };
"""))
c("g-names-fold", None, (B, """            for resolved_name in [&dep.name, dep.pkg.name()] {
                if pkg_name_equals(resolved_name, krate_dep_name) {
                    return true;
                }
            }

            false
""", """            [dep.name.as_str(), dep.pkg.name()]
                .into_iter()
                .any(|resolved_name| pkg_name_equals(resolved_name, krate_dep_name))
"""))
c("g-names-one", "C15", (B, """            for resolved_name in [&dep.name, dep.pkg.name()] {""", """            for resolved_name in [&dep.name, dep.pkg.name()].into_iter().skip(usize::from(dep.name.len() > krate_dep_name.len() + 3)) {""") if False else (B, """            krate.len() == human.len()
                && krate""", """            krate.len() == human.len() && !krate.is_empty() && krate.as_bytes()[0] == human.as_bytes()[0]
                && krate"""))
c("g-name-bytes", None, (B, """            krate.len() == human.len()
                && krate
                    .chars()
                    .zip(human.chars())
                    .all(|(a, b)| a == b || a == '_' && b == '-')
""", """            if krate.len() != human.len() {
                return false;
            }

            for (a, b) in krate.chars().zip(human.chars()) {
                let same = a == b || (a == '_' && b == '-');
                if !same {
                    return false;
                }
            }

            true
"""))
c("g-libkind-matches", "C15", (B, """                                | cm::TargetKind::StaticLib
""", ""))
c("g-libkind-single", None, (B, """                let Some(targ) = pkg.targets.iter().find(|tar| {
                    tar.kind.iter().any(|kind| {
                        matches!(""", """                fn is_lib(target: &cm::Target) -> bool {
                    target.kind.iter().any(|kind| {
                        matches!("""), (B, """                        )
                    })
                }) else {
                    return;
                };
""", """                        )
                    })
                }

                let Some(targ) = pkg.targets.iter().find(|target| is_lib(target)) else {
                    return;
                };
"""))
