L = "src/lib.rs"
DD = """        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                match &graph[edge.target()] {
                    Node::Krate { krate, .. } => {
                        if visited.insert(edge.target()) {
                            direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }
        }
"""
DT = """                match &graph[edge.source()] {
                    Node::Krate { krate, .. } => {
                        if visited.insert(edge.source()) {
                            direct_dependents.push(DirectDependent {
                                krate,
                                node_id: edge.source(),
                                edge_id: edge.id(),
                            });
                        }
                    }
                    Node::Feature { krate_index, .. } => {
                        if *krate_index == nid && visited.insert(edge.source()) {
                            stack.push(edge.source());
                        }
                    }
                }
"""
KF = """        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };

                match &graph[edge.target()] {
                    Node::Krate { id, krate, .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }

            visited.insert(nid);
        }

        filtered.into_values().collect()
"""
KINIT = """        let mut filtered: std::collections::BTreeMap<_, _> = self
            .workspace_members()
            .filter_map(|n| {
                let Node::Krate { id, krate, .. } = n else {
                    return None;
                };
                Some((id, krate))
            })
            .collect();
"""
SINIT = """        let mut stack: Vec<_> = self
            .workspace_members
            .iter()
            .filter_map(|pid| self.nid_for_kid(pid))
            .collect();
"""


def one(old, a, b):
    assert a in old, a
    return old.replace(a, b, 1)


CASES = [
    dict(n="dd-insert-first", p=None, e=[(L, DD, """        while let Some(nid) = stack.pop() {
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                let target = edge.target();
                if !visited.insert(target) {
                    continue;
                }
                match &graph[target] {
                    Node::Krate { krate, .. } => {
                        direct_dependencies.push(DirectDependency {
                            krate,
                            node_id: target,
                            edge_id: edge.id(),
                        });
                    }
                    Node::Feature { .. } => stack.push(target),
                }
            }
        }
""")]),
    dict(n="dd-iflet", p=None, e=[(L, DD, """        while let Some(current) = stack.pop() {
            for edge in graph.edges_directed(current, Direction::Outgoing) {
                let node_id = edge.target();
                if !visited.insert(node_id) {
                    continue;
                }
                if let Node::Krate { krate, .. } = &graph[node_id] {
                    direct_dependencies.push(DirectDependency { krate, node_id, edge_id: edge.id() });
                } else {
                    stack.push(node_id);
                }
            }
        }
""")]),
    dict(n="dd-contains", p=None, e=[(L, DD, """        while !stack.is_empty() {
            let nid = stack.pop().unwrap();
            for edge in graph.edges_directed(nid, Direction::Outgoing) {
                let target = edge.target();
                if visited.contains(&target) {
                    continue;
                }
                visited.insert(target);
                match &graph[target] {
                    Node::Krate { krate, .. } => direct_dependencies.push(DirectDependency {
                        krate,
                        node_id: target,
                        edge_id: edge.id(),
                    }),
                    Node::Feature { .. } => stack.push(target),
                }
            }
        }
""")]),
    dict(n="dd-queue", p=None, e=[(L, "        let mut direct_dependencies = Vec::new();\n        let mut stack = vec![nid];", "        let mut direct_dependencies = Vec::new();\n        let mut stack = std::collections::VecDeque::from([nid]);"),
        (L, DD, DD.replace("stack.pop()", "stack.pop_front()").replace("stack.push(", "stack.push_back("))]),
    dict(n="dd-edges", p=None, e=[(L, DD, DD.replace("graph.edges_directed(nid, Direction::Outgoing)", "graph.edges(nid)"))]),
    dict(n="dd-loop", p=None, e=[(L, DD, DD.replace("while let Some(nid) = stack.pop() {", "loop {\n            let Some(nid) = stack.pop() else { break };"))]),
    dict(n="dd-hashset", p=None, e=[(L, "let mut direct_dependencies = Vec::new();\n        let mut stack = vec![nid];\n        let mut visited = std::collections::BTreeSet::new();", "let mut direct_dependencies = Vec::new();\n        let mut stack = vec![nid];\n        let mut visited = std::collections::HashSet::new();")]),
    dict(n="dd-closure", p=None, e=[(L, DD, DD.replace("        while let", "        let found = |krate, edge: petgraph::graph::EdgeReference<'_, E>| DirectDependency {\n            krate,\n            node_id: edge.target(),\n            edge_id: edge.id(),\n        };\n        while let").replace("""direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });""", "direct_dependencies.push(found(krate, edge));"))]),
    dict(n="dt-origin", p=None, e=[(L, "        let mut direct_dependents = Vec::new();\n        let mut stack = vec![nid];", "        let origin = nid;\n        let mut direct_dependents = Vec::new();\n        let mut stack = vec![nid];"),
        (L, DT, DT.replace("*krate_index == nid &&", "*krate_index == origin &&"))]),
    dict(n="dt-guard", p=None, e=[(L, DT, """                match &graph[edge.source()] {
                    Node::Krate { krate, .. } => {
                        if visited.insert(edge.source()) {
                            direct_dependents.push(DirectDependent {
                                krate,
                                node_id: edge.source(),
                                edge_id: edge.id(),
                            });
                        }
                    }
                    Node::Feature { krate_index, .. } if *krate_index == nid => {
                        if visited.insert(edge.source()) {
                            stack.push(edge.source());
                        }
                    }
                    Node::Feature { .. } => {}
                }
""")]),
    dict(n="dt-nested", p=None, e=[(L, DT, """                let source = edge.source();
                if let Node::Feature { krate_index, .. } = &graph[source] {
                    if *krate_index != nid {
                        continue;
                    }
                }
                if !visited.insert(source) {
                    continue;
                }
                match &graph[source] {
                    Node::Krate { krate, .. } => direct_dependents.push(DirectDependent {
                        krate,
                        node_id: source,
                        edge_id: edge.id(),
                    }),
                    Node::Feature { .. } => stack.push(source),
                }
""")]),
    dict(n="kf-matches", p=None, e=[(L, KF, one(KF, """                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };
""", """                if matches!(edge.weight(), Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } if *kind == filter) {
                    continue;
                }
"""))]),
    dict(n="kf-merged", p=None, e=[(L, KF, one(KF, """                match &graph[edge.target()] {
                    Node::Krate { id, krate, .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
""", """                if visited.insert(edge.target()) {
                    stack.push(edge.target());
                    if let Node::Krate { id, krate, .. } = &graph[edge.target()] {
                        filtered.insert(id, krate);
                    }
                }
"""))]),
    dict(n="kf-filter-iter", p=None, e=[(L, KF, one(one(KF, """                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };

""", ""), "for edge in graph.edges_directed(nid, Direction::Outgoing) {", """for edge in graph
                .edges_directed(nid, Direction::Outgoing)
                .filter(|edge| match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => *kind != filter,
                    Edge::Feature => true,
                })
            {"""))]),
    dict(n="kf-nomark", p=None, e=[(L, KF, one(KF, "            visited.insert(nid);\n", ""))]),
    dict(n="kf-markpop", p=None, e=[(L, KF, one(one(KF, "            visited.insert(nid);\n", ""), "while let Some(nid) = stack.pop() {\n", "while let Some(nid) = stack.pop() {\n            visited.insert(nid);\n"))]),
    dict(n="kf-init-once", p=None, e=[(L, KINIT + SINIT, """        let mut filtered = std::collections::BTreeMap::new();
        let mut stack = Vec::new();
        for pid in &self.workspace_members {
            let Some(nid) = self.nid_for_kid(pid) else {
                continue;
            };
            stack.push(nid);
            if let Node::Krate { id, krate, .. } = &self.graph[nid] {
                filtered.insert(id, krate);
            }
        }
""")]),
    dict(n="kf-helper", p=None, e=[(L, KF, one(KF, """                match edge.weight() {
                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {
                        if *kind == filter {
                            continue;
                        }
                    }
                    Edge::Feature => {}
                };
""", """                if is_kind(edge.weight(), filter) {
                    continue;
                }
""")), (L, "/// If the node type N supports [`KrateDetails`], we can also", """fn is_kind(edge: &Edge, filter: DepKind) -> bool {
    match edge {
        Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => *kind == filter,
        Edge::Feature => false,
    }
}

/// If the node type N supports [`KrateDetails`], we can also""")]),
    # bugs
    dict(n="ddb-noset", p="C16", e=[(L, DD, one(DD, """                        if visited.insert(edge.target()) {
                            direct_dependencies.push(DirectDependency {
                                krate,
                                node_id: edge.target(),
                                edge_id: edge.id(),
                            });
                        }
""", """                        direct_dependencies.push(DirectDependency {
                            krate,
                            node_id: edge.target(),
                            edge_id: edge.id(),
                        });
"""))]),
    dict(n="ddb-break", p="C16", e=[(L, DD, one(DD, """                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
""", """                        if !visited.insert(edge.target()) {
                            break;
                        }
                        stack.push(edge.target());
"""))]),
    dict(n="ddb-recurse", p="C16", e=[(L, DD, one(DD, "edge_id: edge.id(),\n                            });\n", "edge_id: edge.id(),\n                            });\n                            if false || graph.node_count() > 1000 { stack.push(edge.target()); }\n"))]),
    dict(n="ddb-nofeat", p="C16", e=[(L, DD, one(DD, """                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
""", ""))]),
    dict(n="ddb-visit-src", p="C16", e=[(L, DD, one(DD, "                        if visited.insert(edge.target()) {\n                            stack", "                        if visited.insert(edge.source()) {\n                            stack"))]),
    dict(n="ddb-feat-name", p="C16", e=[(L, DD, one(one(DD, "Node::Feature { .. } => {", "Node::Feature { name, .. } => {"), "if visited.insert(edge.target()) {\n                            stack", "if name != \"default\" && visited.insert(edge.target()) {\n                            stack"))]),
    dict(n="ddb-nodeid", p="C16", e=[(L, DD, one(DD, "node_id: edge.target(),", "node_id: edge.source(),"))]),
    dict(n="ddb-seen-self", p="C16", e=[(L, DD, one(DD, "                        if visited.insert(edge.target()) {\n                            direct", "                        if edge.target().index() > nid.index() && visited.insert(edge.target()) {\n                            direct"))]),
    dict(n="dtb-noown", p="C17", e=[(L, DT, one(DT, "*krate_index == nid && ", "")), (L, DT.replace("*krate_index == nid && ", "").replace("krate_index, ", "krate_index, ") if 0 else "Node::Feature { krate_index, .. } => {\n                        if visited", "Node::Feature { .. } => {\n                        if visited")]),
    dict(n="dt-mark-first", p=None, e=[(L, DT, one(DT, "*krate_index == nid && visited.insert(edge.source())", "visited.insert(edge.source()) && *krate_index == nid"))]),
    dict(n="dtb-nofeat", p="C17", e=[(L, DT, one(DT, "stack.push(edge.source());", "let _ = krate_index;"))]),
    dict(n="dtb-target", p="C17", e=[(L, DT, one(DT, "node_id: edge.source()", "node_id: edge.target()"))]),
    dict(n="dtb-dup", p="C17", e=[(L, DT, one(DT, "if visited.insert(edge.source()) {\n                            direct", "if visited.insert(edge.source()) || edge.source() == nid {\n                            direct"))]),
    dict(n="dtb-pushtarget", p="C17", e=[(L, DT, one(DT, "stack.push(edge.source())", "stack.push(*krate_index)"))]),
    dict(n="kfb-feature-kind", p="C18", e=[(L, KF, one(KF, "Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {", "Edge::Dep { kind, .. } => {").replace("Edge::Feature => {}", "Edge::Feature | Edge::DepFeature { .. } => {}"))]),
    dict(n="kfb-negated", p="C18", e=[(L, KF, one(KF, "if *kind == filter {", "if *kind != filter {"))]),
    dict(n="kfb-devtoo", p="C18", e=[(L, KF, one(KF, "if *kind == filter {", "if *kind == filter || *kind == DepKind::Dev {"))]),
    dict(n="kfb-visit-first", p="C18", e=[(L, KF, one(KF, "                match edge.weight() {", "                if visited.contains(&edge.target()) {\n                    continue;\n                }\n                visited.insert(edge.source());\n                match edge.weight() {"))]),
    dict(n="kfb-mark-filtered", p="C18", e=[(L, KF, one(KF, "                            continue;\n                        }\n                    }", "                            visited.insert(edge.target());\n                            continue;\n                        }\n                    }"))]),
    dict(n="kfb-nofeat", p="C18", e=[(L, KF, one(KF, """                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }""", "                    Node::Feature { .. } => {}"))]),
    dict(n="kfb-target-break", p="C18", e=[(L, KF, one(KF, "                            continue;", "                            break;"))]),
    dict(n="kfb-members-pop", p="C18", e=[(L, KF, one(KF, "            visited.insert(nid);", "            if visited.insert(nid) && visited.len() > graph.node_count() / 2 {\n                break;\n            }"))]),
    dict(n="kfb-id-order", p="C18", e=[(L, KF, one(KF, "        filtered.into_values().collect()", "        filtered.into_values().rev().collect()"))]),
    dict(n="kfb-cfg", p="C18", e=[(L, KF, one(KF, "Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {", "Edge::Dep { kind, cfg: None } | Edge::DepFeature { kind, cfg: None } => {").replace("Edge::Feature => {}", "_ => {}"))]),
    dict(n="kfb-members-none", p="C18", e=[(L, "let mut filtered: std::collections::BTreeMap<_, _> = self\n            .workspace_members()", "let mut filtered: std::collections::BTreeMap<_, _> = self\n            .workspace_members()\n            .skip(1)")]),
    dict(n="kfb-start-first", p="C18", e=[(L, ".filter_map(|pid| self.nid_for_kid(pid))\n            .collect();", ".filter_map(|pid| self.nid_for_kid(pid))\n            .take(1)\n            .collect();")]),
]
