"""termination"""
L, B = "src/lib.rs", "src/builder.rs"
CASES = []


def c(n, p, f, *e):
    CASES.append(dict(n="lp-" + n, p=p, e=[(f, o, w) for o, w in e]))


c("b-filt-feat", "C12", L, ("""                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }

            visited.insert(nid);""", """                    Node::Feature { .. } => {
                        stack.push(edge.target());
                    }
                }
            }

            visited.insert(nid);"""))
c("b-dd-feat", "C12", L, ("""                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }
            }
        }

        direct_dependencies""", """                    Node::Feature { .. } => {
                        stack.push(edge.target());
                    }
                }
            }
        }

        direct_dependencies"""))
c("b-filt-popmark", "C12", L, ("""                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }""", """                        if !visited.contains(&edge.source()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }"""))
c("b-decode", "C12", L, ("encoded = &encoded[pi + 3..];", "encoded = &encoded[pi..];"))
c("b-recurse", "C12", L, ("    /// Gets crates directly depended upon by the specified node\n", """    fn depth(&self, nid: NodeId) -> usize {
        self.graph.neighbors_directed(nid, Direction::Outgoing).map(|n| self.depth(n) + 1).max().unwrap_or(0)
    }

    /// The length of the longest chain of dependencies
    pub fn max_depth(&self, nid: NodeId) -> usize {
        self.depth(nid)
    }

    /// Gets crates directly depended upon by the specified node
"""))
c("b-cmp", "C06", B, ("""                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                _ => break,""", """                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                (Some(_), None) => break,
                (None, Some(_)) => continue,"""))
c("b-cmp2", "C06", B, ("                    if r.as_str() != d {\n                        break;", "                    if !r.as_str().starts_with(d) {\n                        break;"))
c("b-cmp3", "C06", B, ("                _ => break,\n            }\n        }\n\n        false", "                (None, _) => return true,\n                _ => break,\n            }\n        }\n\n        false"))
c("b-cmp4", "C06", B, ("        rpath == dpath\n", "        dpath.starts_with(rpath)\n"))
c("b-cmp5", "C06", B, ("let mut dcomp = dpath.as_str().split('\\\\');", "let mut dcomp = dpath.as_str().rsplit('\\\\');"))
c("r-cmp-zip", None, B, ("""        loop {
            match (rcomp.next(), dcomp.next()) {
                (Some(r), Some(d)) => {
                    if r.as_str() != d {
                        break;
                    }
                }
                (None, None) => {
                    return true;
                }
                _ => break,
            }
        }

        false""", """        loop {
            let (r, d) = (rcomp.next(), dcomp.next());
            if r.is_none() && d.is_none() {
                return true;
            }
            if r.map(|r| r.as_str()) != d {
                return false;
            }
        }"""))
c("r-stack-loop", None, B, ("            while let Some(feat) = feature_stack.pop() {\n", "            loop {\n                let Some(feat) = feature_stack.pop() else { break };\n"))
c("r-remove", None, B, ("                    .map(|i| enabled.swap_remove(i))", "                    .map(|i| enabled.remove(i))"))
c("r-empty", None, B, ("            while let Some(feat) = feature_stack.pop() {\n", "            while !feature_stack.is_empty() {\n                let feat = feature_stack.pop().unwrap();\n"))
c("r-filt-first", None, L, ("""                match &graph[edge.target()] {
                    Node::Krate { id, krate, .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                            filtered.insert(id, krate);
                        }
                    }
                    Node::Feature { .. } => {
                        if visited.insert(edge.target()) {
                            stack.push(edge.target());
                        }
                    }
                }""", """                if !visited.insert(edge.target()) {
                    continue;
                }
                stack.push(edge.target());
                if let Node::Krate { id, krate, .. } = &graph[edge.target()] {
                    filtered.insert(id, krate);
                }"""))
