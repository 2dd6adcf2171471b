"""single changes of src/builder.rs that break a property"""
B = "src/builder.rs"
CASES = []


def m(n, p, *eds):
    CASES.append(dict(n="bb-" + n, p=p, e=[(B, o, w) for o, w in eds]))


# options of the builder
m("ign-shift-ws", "C03", ("Scope::Workspace => kind_flag << 1", "Scope::Workspace => kind_flag << 2"))
m("ign-all-nows", "C03", ("Scope::All => (kind_flag << 1) | (kind_flag << 2)", "Scope::All => kind_flag << 1"))
m("ign-assign", "C03", ("self.ignore_kinds |= match scope", "self.ignore_kinds = kind_flag | match scope"))
m("ign-overlap", "C03", ("            DepKind::Dev => 0x8,\n            DepKind::Build => 0x40,\n        };\n\n        self", "            DepKind::Dev => 0x2,\n            DepKind::Build => 0x40,\n        };\n\n        self"))
m("ign-edge-any", "C03", ("if mask & ignore_kinds == mask {", "if mask & ignore_kinds != 0 {"))
m("ign-edge-target", "C03", ("let is_in_workspace = workspace_members.binary_search(pid).is_ok();", "let is_in_workspace = is_root_crate(pid);"))
m("excl-replace", "C01", ("self.exclude.extend(exclude);", "self.exclude = exclude.into_iter().collect();"))
m("excl-all", "C01", ("exclude.iter().any(|exc| exc.matches(krate))", "!exclude.is_empty() && exclude.iter().all(|exc| exc.matches(krate))"))
m("excl-member", "C01", ("if exclude.iter().any(|exc| exc.matches(krate)) {", "if !is_in_workspace && exclude.iter().any(|exc| exc.matches(krate)) {"))
m("excl-first", "C01", ("exclude.iter().any(|exc| exc.matches(krate))", "exclude.first().is_some_and(|exc| exc.matches(krate))"))
m("excl-feature", "C01", ("if exclude.iter().any(|exc| exc.matches(krate)) {", "if feature.is_none() && exclude.iter().any(|exc| exc.matches(krate)) {"))
m("wsf-replace", "C07", ("self.workspace_filters.extend(crates.into_iter()", "self.workspace_filters.clear();\n        self.workspace_filters.extend(crates.into_iter()"))
m("wsf-join", "C07", ("""            if !p.ends_with("Cargo.toml") {
                p.join("Cargo.toml")""", """            if p.extension().is_none() {
                p.join("Cargo.toml")"""))
m("wsf-canon", "C07", ("let p = p.canonicalize().unwrap_or_else(|_| p.to_owned());", "let p = p.to_owned();"))
m("tgt-replace", "C04", ("""        self.target_filters
            .extend(targets""", """        self.target_filters = Vec::new();
        self.target_filters
            .extend(targets"""))
m("tgt-nofeat", "C04", ("""                inner: triple.into(),
                features,""", """                inner: triple.into(),
                features: features.into_iter().take(1).collect(),"""))
m("tgt-feat-all", "C04", ("self.features.iter().any(|f| f == feat)", "self.features.iter().all(|f| f == feat)"))
m("tgt-other-true", "C04", ("            // presumably cargo will be responsible for that, so don't bother\n            _ => false,", "            // presumably cargo will be responsible for that, so don't bother\n            _ => true,"))
m("tgt-unknown-true", "C04", ("Target::Unknown(_) => false,", "Target::Unknown(_) => true,"))
m("tgt-triple-prefix", "C04", ("Target::Unknown(unknown) => unknown == triple,", "Target::Unknown(unknown) => unknown.starts_with(triple),"))
m("tgt-eval-mixed", "C04", (""".any(|target| expr.eval(|pred| target.eval(pred)))""", """.next().is_some() && expr.eval(|pred| targets.iter().any(|target| target.eval(pred)))"""))
m("tgt-pred-count", "C04", ("if expr.predicates().count() == 0 && !expr.eval(|_| true)", "if !expr.eval(|_| true)"))
m("tgt-first", "C04", ("targets.iter().any(|target| target.matches_triple(&cfg.inner))", "targets.first().is_some_and(|target| target.matches_triple(&cfg.inner))"))
m("tgt-ws-all", "C04", ("if !include_all_targets {", "if !include_all_targets && !is_in_workspace {"))
m("ws-set-or", "C07", ("self.workspace = workspace;", "self.workspace |= workspace;"))
# sorting
m("sort-pkgs-name", "C11", ("packages.sort_by(|(a, _), (b, _)| a.cmp(b));", "packages.sort_by(|(_, a), (_, b)| a.name.cmp(&b.name));"))
m("sort-pkgs-repr", "C11", ("packages.sort_by(|(a, _), (b, _)| a.cmp(b));", "packages.sort_by(|(a, _), (b, _)| a.repr.cmp(&b.repr));"))
m("sort-members-no", "C11", ("        workspace_members.sort();\n", ""))
m("sort-nodes-no", "C11", ("        nodes.sort_by(|a, b| a.id.cmp(&b.id));\n", ""))
m("sort-nodes-rev", "C11", ("nodes.sort_by(|a, b| a.id.cmp(&b.id));", "nodes.sort_by(|a, b| b.id.cmp(&a.id));"))
m("sort-features-no", "C11", ("                features.sort();\n", ""))
m("sort-features-len", "C11", ("                features.sort();\n", "                features.sort_by_key(|f| f.len());\n"))
m("sort-cond", "C11", ("        workspace_members.sort();\n", "        if workspace_members.len() > 2 {\n            workspace_members.sort();\n        }\n"))
# roots
m("root-always", "C07", ("""                if !self.workspace
                    && let Some(rkid) = &root""", """                if let Some(rkid) = &root"""))
m("root-extra", "C07", ("""                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
            } else {""", """                if roots.is_empty() || workspace_members.len() == 1 {
                    roots.extend(workspace_members.iter());
                }
            } else {"""))
m("root-noempty", "C07", ("""                if roots.is_empty() {
                    roots.extend(workspace_members.iter());
                }
            } else {""", """                if root.is_none() {
                    roots.extend(workspace_members.iter());
                }
            } else {"""))
m("root-filter-parent", "C07", ("self.workspace_filters.iter().any(|wf| wf == mp)", "self.workspace_filters.iter().any(|wf| wf.parent() == mp.parent() || mp.starts_with(wf))"))
m("root-filter-len", "C07", ("""                if self.workspace_filters.len() == 1
                    && Some""", """                if Some"""))
m("root-filter-canon", "C07", ("let mp = manifest_path.as_deref().unwrap_or(mp);", "let _ = manifest_path;"))
m("root-feat-skip", "C07", ("for feat in 0..rnode.features.len() {", "for feat in 1..rnode.features.len() {"))
m("root-feat-default", "C07", ("for feat in 0..rnode.features.len() {", "for feat in (0..rnode.features.len()).filter(|f| rnode.feature(*f) != \"default\") {"))
m("root-flag", "C20", ("is_root: is_root_crate(pid),", "is_root: is_in_workspace,"))
# resolve nodes
m("kind-normal", "C09", ("kind: dk.kind.into(),\n                                cfg: dk", "kind: match dk.kind { crate::cm::DependencyKind::Development => DepKind::Dev, _ => DepKind::Normal },\n                                cfg: dk"))
m("default-feature", "C08", ("""                    .binary_search_by(|f| f.as_str().cmp("default"))
                    .is_ok();""", """                    .first()
                    .is_some_and(|f| f == "default");"""))
m("ver-of-name", "C06", ("let version = match pkg.version().parse() {", "let version = match pkg.version().split('+').next().unwrap().parse() {"))
m("is-opaque", "C06", (".is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() == 3);", ".is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() >= 2);"))
# visited
m("check-or", "C09", ("pn.actual.contains(&feat)", "pn.filled_non_optional || pn.actual.contains(&feat)"))
m("check-neg", "C09", ("                    pn.filled_non_optional\n                }", "                    pn.filled_non_optional || !pn.actual.is_empty()\n                }"))
m("filled-no", "C12", ("                krate_features.filled_non_optional = true;\n", ""))
m("filled-push-no", "C08", ("                if !krate_features.filled_non_optional {\n                    visit_stack.push(pid);\n                }\n", ""))
# feature loop
m("simple-skip-default", "C08", ("visit_stack.push_with_feature(pid, rnode.feature_index(feat));", "if feat != \"default\" {\n                                visit_stack.push_with_feature(pid, rnode.feature_index(feat));\n                            }"))
m("weak-active", "C05", ("if is_weak && !pn.deps.contains_key(&ndep.pkg) {", "if is_weak && !pn.deps.contains_key(&ndep.pkg) && !deps.contains_key(&ndep.pkg) {"))
m("weak-drop", "C05", ("""                        krate_features
                            .pending_weak
                            .entry(&ndep.pkg)
                            .or_default()
                            .insert(feature);
                        continue;""", """                        let _ = feature;
                        continue;"""))
m("weak-as-strong", "C05", ("if is_weak && !pn.deps.contains_key(&ndep.pkg) {", "if is_weak && !pn.deps.contains_key(&ndep.pkg) && !pn.is_root {"))
m("weak-replace", "C05", ("""                            .or_default()
                            .insert(feature);
                        continue;""", """                            .or_insert_with(|| BTreeSet::from([feature]));
                        continue;"""))
m("weak-lost", "C05", ("""                            .unwrap()
                            .append(&mut pending);
""", """                            .unwrap()
                            .extend(pending.pop_first());
"""))
m("strong-nofeat", "C08", ("                        feats.insert(rdep_node.feature_index(feature));", "                        if !is_weak {\n                            feats.insert(rdep_node.feature_index(feature));\n                        }"))
m("dep-return", "C08", ("let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {\n                        continue;", "let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {\n                        break;"))
m("deps-nonopt", "C09", ("deps.extend(rnode.deps.iter().map(|ndep| (&ndep.pkg, (ndep, None))));", "deps.extend(rnode.deps.iter().filter(|ndep| ndep.pkg != *pid).map(|ndep| (&ndep.pkg, (ndep, None))));"))
# edges
m("edge-opt-strong", "C05", ("if dep.optional && !strong {", "if dep.optional && !strong && !is_in_workspace {"))
m("edge-opt-default", "C05", ("if dep.optional && !strong {", "if dep.optional && !strong && !dep.uses_default_features {"))
m("edge-opt-never", "C05", ("if dep.optional && !strong {", "if dep.optional && !strong && dk.kind != DepKind::Build {"))
m("edge-kind", "C09", ("            kind: dk.kind,\n                            cfg,", "            kind: if dep.optional { DepKind::Normal } else { dk.kind },\n                            cfg,"))
m("edge-cfg-none", "C09", ("Some(cfg.inner.as_str())", "include_all_targets.then_some(cfg.inner.as_str())"))
m("edge-dup-kind", "C09", (".any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)", ".any(|d| d.kind == edge.kind)"))
m("edge-dup-cfg", "C09", (".any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)", ".any(|d| d.cfg.as_deref() == edge.cfg)"))
m("edge-dup-dep", "C09", (".any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)", ".any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg && d.dep_index == edge.dep_index)"))
m("edge-default-nocheck", "C08", ("uses_default_features: dep.uses_default_features && rdep_node.has_default_feature,", "uses_default_features: rdep_node.has_default_feature,"))
m("edge-default-other", "C08", ("uses_default_features: dep.uses_default_features && rdep_node.has_default_feature,", "uses_default_features: dep.uses_default_features && rdep_node.has_default_feature && dep.features.is_empty(),"))
m("edge-feats-first", "C08", ("                        .features\n                        .iter()\n                        .map(|f| f.as_str())", "                        .features\n                        .iter()\n                        .skip_while(|f| *f == \"default\")\n                        .map(|f| f.as_str())"))
m("edge-push-feature", "C08", ("                        visit_stack.push_with_feature(pkg, feat_index);\n", ""))
m("edge-push-feature2", "C08", ("                            visit_stack.push_with_feature(pkg, feat);\n                            dep.features.insert(feat);", "                            dep.features.insert(feat);"))
m("edge-push-feature3", "C08", ("                            visit_stack.push_with_feature(pkg, feat);\n                            dep.features.insert(feat);", "                            visit_stack.push_with_feature(pkg, feat);"))
m("edge-visit-no", "C02", ("""                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf)""", """                    if let Some(vd) = visit_dep.take() {
                        if !edge.uses_default_features {
                            visit_stack.push(vd);
                        }
                        if let Some(kf)"""))
m("edge-pending-no", "C05", ("""                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
                            for feat in kf {
                                visit_stack.push_with_feature(vd, feat);
                                dep.features.insert(feat);
                            }
                        }
                    }

                    let mut features""", """                    if let Some(vd) = visit_dep.take() {
                        visit_stack.push(vd);
                    }

                    let mut features"""))
m("edge-empty", "C05", ("                if edges.peek().is_none() {\n                    continue;", "                if edges.peek().is_none() && !strong {\n                    continue;"))
# matching
m("match-req", "C06", ("""                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
                                    return false;
                                }

                                if !crate""", """                                if !(has_prelease || dep.req.matches(rdep_version)) {
                                    return false;
                                }

                                if !crate"""))
m("match-target", "C06", ("""                                if !crate::targets_eq(&dk.cfg, &dep.target) {
                                    return false;
                                }
""", """                                if dk.cfg.is_some() && !crate::targets_eq(&dk.cfg, &dep.target) {
                                    return false;
                                }
"""))
m("match-kind", "C06", ("""                            .find(|(_, dep)| {
                                if dk.kind != dep.kind {
                                    return false;
                                }
""", """                            .find(|(_, dep)| {
                                if dk.kind != dep.kind && dep.kind != crate::cm::DependencyKind::Normal {
                                    return false;
                                }
"""))
m("match-multi", "C06", ("}).count() > 1;", "}).count() > 2;"))
m("match-src", "C06", ("                                        return dsrc == psrc;", "                                        return dsrc.ends_with(psrc);"))
m("match-git", "C06", ("                                    dgit == pgit\n", "                                    dgit.starts_with(pgit)\n"))
m("match-index", "C14", ("                            dep_index,\n                            // Dependencies", "                            dep_index: dep_index.min(krate.dependencies.len() - 2),\n                            // Dependencies"))
m("match-path", "C06", ("""                                } else if let Some(dpath) = &dep.path {
                                    compare_paths(dpath, rdep.pkg.source())""", """                                } else if dep.path.is_some() {
                                    true"""))
m("path-end", "C06", ("""                (None, None) => {
                    return true;
                }
                _ => break,""", """                (None, _) => {
                    return true;
                }
                _ => break,"""))
# graph
m("empty-root", "C13", ("        if dep_edge_map.is_empty() {\n            return Err(Error::NoRootKrates);\n        }\n", ""))
m("noresolve", "C13", ("let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;", "let mut resolved = md.resolve.ok_or(Error::NoRootKrates)?;"))
m("empty-err", "C13", ("        if dep_edge_map.is_empty() {", "        if dep_edge_map.len() < 2 && !roots.is_empty() && root.is_none() {"))
m("filter-no", "C02", ("                on_filter.filtered(krate);\n", "                if !workspace_members.contains(&id) {\n                    on_filter.filtered(krate);\n                }\n"))
m("feat-root", "C20", ("            let features = if pn.is_root {", "            let features = if pn.is_root && !pn.deps.is_empty() {"))
m("feat-actual", "C20", ("                    .map(|k| rnode.feature(*k).to_owned())", "                    .filter(|k| **k != 0)\n                    .map(|k| rnode.feature(*k).to_owned())"))
m("mapping-short", "C14", ("let dep_mapping = vec![None; krate.dependencies.len()];", "let dep_mapping = vec![None; pn.deps.len()];"))
m("mapping-src", "C14", ("dep_mapping[edge.dep_index] = Some(target_krate);", "dep_mapping[edge.dep_index].get_or_insert(srcid);"))
m("mapping-cond", "C14", ("if let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {", "if attach_direct_edge && let crate::Node::Krate { dep_mapping, .. } = &mut graph[srcid] {"))
m("get-feature", "C09", ("                                if id == kid && name == feat {", "                                if name == feat {"))
m("get-offset", "C09", ("return Some(crate::NodeId::new(i + krates_end));", "return Some(crate::NodeId::new(i));"))
m("attach-node", "C20", ("                                krate_index: target_krate,\n                                name: feat,", "                                krate_index: srcid,\n                                name: feat,"))
m("attach-kind", "C09", ("""                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: edge.cfg.clone(),""", """                            Edge::DepFeature {
                                kind: edge.kind,
                                cfg: None,"""))
m("attach-direct", "C09", ("let attach_direct_edge = edge.features.is_empty();", "let attach_direct_edge = edge.features.is_empty() && dep.features.is_empty();"))
m("attach-both", "C09", ("                    if attach_direct_edge {", "                    if attach_direct_edge || edge.kind == DepKind::Build {"))
m("attach-feature", "C08", ("""                for feat in dep.features {
                    let feat = rnode.feature(feat);
                    attach(&mut graph, feat.to_owned(), Edge::Feature);
                }
""", ""))
m("attach-feature-dep", "C09", ("attach(&mut graph, feat.to_owned(), Edge::Feature);", "attach(&mut graph, feat.to_owned(), Edge::DepFeature { kind: DepKind::Normal, cfg: None });"))
m("tgt-break", "C09", ("""                    tk
                } else {
                    continue;""", """                    tk
                } else {
                    break;"""))
# feature links
m("fl-own", "C37", ("                graph.add_edge(src_id, kind, E::from(crate::Edge::Feature));\n", ""))
m("fl-target", "C37", ("                    graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));", "                    graph.add_edge(target_id, src_id, E::from(crate::Edge::Feature));"))
m("fl-kind", "C37", ("                    graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));", "                    graph.add_edge(src_id, target_id, E::from(crate::Edge::Dep { kind: DepKind::Normal, cfg: None }));"))
m("fl-nopush", "C37", ("                                feature_stack.push(feat_name);\n", ""))
m("fl-noinsert", "C37", ("                                features.insert(feat_name.clone());\n                                feature_stack", "                                feature_stack"))
m("fl-gone", "C37", ("if sub_feat.kid != pid && get(&graph, sub_feat.kid, None).is_none() {\n                        continue;", "if sub_feat.kid != pid && get(&graph, sub_feat.kid, None).is_none() {\n                        break;"))
m("fl-index", "C37", ("                            krate_index: kind,\n                            name: feat_name.clone(),", "                            krate_index: get(&graph, sub_feat.kid, None).unwrap_or(kind),\n                            name: feat_name.clone(),"))
m("fl-goi", "C37", ("                                && id == kid\n                                && name == feature", "                                && name == feature"))
m("tree-weak", "C37", ("if rnode.features.iter().any(|kn| kn == krate_name) {", "if !rnode.features.is_empty() {"))
m("tree-strong", "C37", ("""                                    } => Some(FeatureEdge {
                                        kid: get_dep_id(krate_name)?,
                                        name: FeatureEdgeName::Feature(feature.to_owned()),
                                    }),
                                    Feature::Weak""", """                                    } => Some(FeatureEdge {
                                        kid: get_dep_id(krate_name)?,
                                        name: FeatureEdgeName::Feature(krate_name.to_owned() + feature),
                                    }),
                                    Feature::Weak"""))
m("tree-simple", None, ("""                                        kid: pid,
                                        name: FeatureEdgeName::Feature(s.to_owned()),""", """                                        kid: pid,
                                        name: FeatureEdgeName::Rename(s.to_owned()),"""))
m("kr-end", None, ("        let krates_end = graph.node_count();", "        let krates_end = dep_edge_map.len();"))
m("kr-order", "C10", ("        for (id, krate) in packages {\n            let Some(pn)", "        for (id, krate) in packages.into_iter().rev() {\n            let Some(pn)"))
