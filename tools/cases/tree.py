# links between features (C37)
CASES = []
B = "src/builder.rs"


def c(n, p, *e):
    CASES.append(dict(n="tr-" + n, p=p, e=[(B, o, w) for o, w in e]))


STRONG = """                                    } => Some(FeatureEdge {
                                        kid: get_dep_id(krate_name)?,
                                        name: FeatureEdgeName::Feature(feature.to_owned()),
                                    }),
                                    Feature::Weak"""
WEAK = "                                        if rnode.features.iter().any(|kn| kn == krate_name) {"
GOI = """                            if let crate::Node::Feature { krate_index, name } = &n.weight
                                && let crate::Node::Krate { id, .. } = &graph[*krate_index]
                                && id == kid
                                && name == feature
                            {
                                Some(crate::NodeId::new(i + krates_end))
                            } else {
                                None
                            }
                        });

                node_id.unwrap_or_else"""
SRC = "                let src_id = get_or_insert(&mut graph, pid, &feat);\n"
CR = "                graph.add_edge(src_id, kind, E::from(crate::Edge::Feature));\n"
SUB = "                    graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));"
NAME = """                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(feat) => Some(feat),
                        FeatureEdgeName::Rename(kname) => Some(kname),
                        FeatureEdgeName::Krate => None,
                    };"""
POS = """                let Some((_parent, sub_features)) = enabled
                    .iter()
                    .position(|(k, _)| *k == feat)
                    .map(|i| enabled.swap_remove(i))
                else {
                    continue;
                };
"""
INS = """                            if !features.contains(&feat_name) {
                                features.insert(feat_name.clone());
                                feature_stack.push(feat_name);
                            }"""
SKIP = """                    if sub_feat.kid != pid && get(&graph, sub_feat.kid, None).is_none() {
                        continue;
                    }
"""
# bugs
c("strong-own", "C37", (STRONG, STRONG.replace("get_dep_id(krate_name)?", "pid")))
c("strong-as-weak", "C37", (STRONG, """                                    } => rnode.features.iter().any(|kn| kn == krate_name).then_some(FeatureEdge {
                                        kid: get_dep_id(krate_name)?,
                                        name: FeatureEdgeName::Feature(feature.to_owned()),
                                    }),
                                    Feature::Weak"""))
c("weak-always", "C37", (WEAK, "                                        if rnode.features.iter().any(|kn| kn == krate_name) || !feature.is_empty() {"))
c("weak-feature", "C37", (WEAK, "                                        if rnode.features.iter().any(|kn| kn == feature) {"))
c("weak-parent", "C37", (WEAK, "                                        if krate.features.contains_key(krate_name) {"))
c("all-features", "C37", ("""                let graph: Vec<_> = rnode
                    .features
                    .iter()
                    .filter_map""", """                let graph: Vec<_> = krate
                    .features
                    .keys()
                    .filter_map"""))
c("skip-default", "C37", ("                    .filter_map(|feat| {\n", "                    .filter(|feat| feat.as_str() != \"default\")\n                    .filter_map(|feat| {\n"))
c("rename-swapped", "C37", ("                                            name: if real_name != krate_name {", "                                            name: if real_name == krate_name {"))
c("goi-nocrate", "C37", (GOI, GOI.replace("                                && id == kid\n", "")))
c("goi-prefix", "C37", (GOI, GOI.replace("name == feature\n", "name.starts_with(feature)\n")))
c("goi-new", "C37", ("                node_id.unwrap_or_else(|| {", "                node_id.filter(|n| n.index() > krates_end).unwrap_or_else(|| {"))
c("no-crate-edge", "C37", (SRC + "\n                // Also add an edge from each feature to the crate node it belongs to\n" + CR, SRC + "\n                if !sub_features.is_empty() {\n    " + CR + "                }\n"))
c("crate-edge-rev", "C37", (CR, CR.replace("src_id, kind", "kind, src_id")))
c("sub-break", "C37", ("                        // pruned, so the feature of the dependency is not enabled by this crate\n                        continue;", "                        // pruned, so the feature of the dependency is not enabled by this crate\n                        break;"))
c("krate-skip", "C37", (SKIP, SKIP.replace("                        continue;\n", "                        continue;\n").replace("sub_feat.kid != pid && ", "matches!(sub_feat.name, FeatureEdgeName::Krate) && sub_feat.kid != pid || ")))
c("name-krate", "C37", (NAME, NAME.replace("FeatureEdgeName::Krate => None", "FeatureEdgeName::Krate => Some(sub_feat.kid.name().to_owned())")))
c("name-feature", "C37", (NAME, NAME.replace("FeatureEdgeName::Feature(feat) => Some(feat)", "FeatureEdgeName::Feature(feat) => (sub_feat.kid == pid).then_some(feat)")))
c("sub-not-pushed", "C37", (INS, """                            if features.insert(feat_name.clone()) && feature_stack.is_empty() {
                                feature_stack.push(feat_name);
                            }"""))
c("pushed-when-there", "C37", (INS, """                            if features.contains(&feat_name) {
                                feature_stack.push(feat_name);
                            } else {
                                features.insert(feat_name.clone());
                            }"""))
c("first-only", "C37", ("                Some((kind, features.iter().cloned().collect::<Vec<_>>()))", "                Some((kind, features.iter().take(1).cloned().collect::<Vec<_>>()))"))
c("stop-unknown", "C37", (POS, POS.replace("continue;", "break;")))
c("position-ci", "C37", (POS, POS.replace("*k == feat", "k.eq_ignore_ascii_case(&feat)")))
c("target-feature-own", "C37", ("                        get(&graph, sub_feat.kid, feat_name.as_deref())\n", "                        get(&graph, pid, feat_name.as_deref())\n"))
# behaviour is kept
c("r-entry-find", None, (POS, """                let Some(i) = enabled.iter().position(|e| e.0 == feat) else {
                    continue;
                };
                let (_, sub_features) = enabled.swap_remove(i);
"""))
c("r-remove", None, (POS, POS.replace("swap_remove", "remove")))
c("r-insert-if", None, (INS, """                            if features.insert(feat_name.clone()) {
                                feature_stack.push(feat_name);
                            }"""))
c("r-skip-is-some", None, (SKIP, """                    let is_own = sub_feat.kid == pid;
                    if !(is_own || get(&graph, sub_feat.kid, None).is_some()) {
                        continue;
                    }
"""))
c("r-edge-order", None, (SRC + "\n                // Also add an edge from each feature to the crate node it belongs to\n" + CR, "                let feature_node = get_or_insert(&mut graph, pid, &feat);\n                let src_id = feature_node;\n                graph.add_edge(feature_node, kind, crate::Edge::Feature.into());\n"))
c("r-name-or", None, (NAME, """                    let feat_name = match sub_feat.name {
                        FeatureEdgeName::Feature(feat) | FeatureEdgeName::Rename(feat) => Some(feat),
                        FeatureEdgeName::Krate => None,
                    };"""))
c("r-name-if", None, (NAME, """                    let feat_name = if let FeatureEdgeName::Feature(name) | FeatureEdgeName::Rename(name) = sub_feat.name {
                        Some(name)
                    } else {
                        None
                    };"""))
c("r-strong-then", None, (STRONG, """                                    } => get_dep_id(krate_name).map(|kid| FeatureEdge {
                                        kid,
                                        name: FeatureEdgeName::Feature(feature.to_owned()),
                                    }),
                                    Feature::Weak"""))
c("r-weak-contains", None, (WEAK, "                                        let on = rnode.features.iter().any(|kn| kn.as_str() == krate_name);\n                                        if on {"))
c("r-goi-match", None, ("                node_id.unwrap_or_else(|| {\n                    let krate_index = get(graph, kid, None).unwrap();\n", "                if let Some(id) = node_id {\n                    id\n                } else {\n                    let krate_index = get(graph, kid, None).unwrap();\n"), ("                        krate_index,\n                        name: feature.to_owned(),\n                    })\n                })\n", "                        krate_index,\n                        name: feature.to_owned(),\n                    })\n                }\n"))
c("r-stack-deque", None, ("                Some((kind, features.iter().cloned().collect::<Vec<_>>()))", "                let mut todo = Vec::with_capacity(features.len());\n                todo.extend(features.iter().cloned());\n                Some((kind, todo))"))
c("r-table-loop", None, ("""                        Some((feat.clone(), sub_feats))
                    })
                    .collect();""", """                        let entry = (feat.to_owned(), sub_feats);
                        Some(entry)
                    })
                    .collect();"""))
