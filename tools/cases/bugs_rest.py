"""bugs outside of the graph construction"""
L, P, C, D, S, CMD, F, I, E, CE, B = ("src/lib.rs", "src/pkgspec.rs", "src/cm.rs", "src/cm/de.rs", "src/cm/ser.rs", "src/cm/cmd.rs",
                                    "src/builder/features.rs", "src/builder/index.rs", "src/errors.rs", "src/cm/errors.rs", "src/builder.rs")
CASES = []


def c(n, p, *e):
    CASES.append(dict(n="br-" + n, p=p, e=list(e)))


# --- pkgspec
c("m-skip-version-without-url", "C24", (P, "if vers != &krate.version {", "if self.url.is_none() && vers != &krate.version {"))
c("m-major-only", "C24", (P, "if vers != &krate.version {", "if (vers.major, vers.minor, vers.patch) != (krate.version.major, krate.version.minor, krate.version.patch) {"))
c("m-name-ci", "C24", (P, "if self.name != krate.name {", "if !self.name.eq_ignore_ascii_case(&krate.name) {"))
c("m-name-dash", "C24", (P, "if self.name != krate.name {", "if self.name.replace('-', \"_\") != krate.name.replace('-', \"_\") {"))
c("m-url-prefix", "C24", (P, "url == &src[begin..end]", "src[begin..end].starts_with(url.as_str())"))
c("m-end-hash-first", "C24", (P, "src.find('?').or_else(|| src.find('#'))", "src.find('#').or_else(|| src.find('?'))"))
c("m-end-rfind", "C24", (P, "src.find('?').or_else", "src.rfind('?').or_else"))
c("m-begin-noplus", "C24", (P, "map_or(0, |i| i + 1)", "map_or(0, |i| i)"))
c("m-url-missing-false", "C24", (P, "            return true;\n        };", "            return self.url.is_none();\n        };"))
c("p-alpha", "C23", (P, "!c.is_ascii_alphanumeric()", "!c.is_alphanumeric()"))
c("p-dot", "C23", (P, "c != '-' && c != '_' &&", "c != '-' && c != '_' && c != '.' &&"))
c("p-rfind-sep", "C23", (P, "nv.find([':', '@'])", "nv.rfind([':', '@'])"))
c("p-path", "C23", (P, "if pind == ind + 2 {", "if pind <= ind + 1 {"))
c("p-validate-nv", "C23", (P, "Ok((validate_name(nv)?, None))\n                                    } else {", "Ok((nv.to_owned(), None))\n                                    } else {"))
c("p-no-name-validate", "C23", (P, "None => Ok((validate_name(path_name.unwrap())?, None)),", "None => Ok((path_name.unwrap().to_owned(), None)),"))
c("p-numeric", "C23", (P, "nv.chars().next().unwrap().is_alphabetic()", "!nv.chars().next().unwrap().is_numeric()"))
c("p-scheme", "C23", (P, "format!(\"cargo://{}\", s)", "format!(\"https://{}\", s)"))
c("p-hash-rfind", "C23", (P, "url.find('#')", "url.rfind('#')"))
c("p-slash-end", "C23", (P, "                    if url.ends_with('/') {\n                        return Err(Error::InvalidPkgSpec(\"url ends with /\"));\n                    }\n", ""))
c("p-ends-colon", "C23", (P, "if ind == nv.len() - 1 {", "if ind == nv.len() {"))
c("p-ver-lenient", "C23", (P, "let version = Version::parse(nv).map_err(|_e| {\n                                            Error::InvalidPkgSpec(\"failed to parse version\")\n                                        })?;\n\n                                        Ok((validate_name(name)?, Some(version)))",
   "let version = Version::parse(nv).ok();\n\n                                        Ok((validate_name(name)?, version))"))
c("p-url-frag", "C23", (P, "let url_no_frag = url[..ind].to_owned();", "let url_no_frag = url[..=ind].to_owned();"))
# --- features
c("f-weak-after", "C25", (F, "&self.inner[ind + 2..]", "&self.inner[ind + 1..]"))
c("f-order", "C25", (F, """        } else if let Some(ind) = f.find("?/") {
            FeatureKind::Weak(ind)
        } else if let Some(ind) = f.find('/') {
            FeatureKind::Strong(ind)
        } else {""", """        } else if let Some(ind) = f.find('/') {
            match f[..ind].find('?') {
                Some(q) => FeatureKind::Weak(q),
                None => FeatureKind::Strong(ind),
            }
        } else {"""))
c("f-dep", "C25", (F, 'f.starts_with("dep:")', 'f.starts_with("dep")'))
c("f-dep-contains", "C25", (F, 'if f.starts_with("dep:") {', 'if f.contains("dep:") {'))
c("f-rweak", "C25", (F, 'f.find("?/")', 'f.rfind("?/")'))
# --- index
c("i-any-source", "C34", (I, "is_none_or(|src| !src.is_crates_io())", "is_some_and(|src| !src.is_crates_io())"))
c("i-version-major", "C34", (I, "(&ikv.version == version)", "(ikv.version >= *version)"))
c("i-overwrite", "C34", (I, "        if !krate.features.contains_key(ikey) {\n            krate.features.insert(ikey.clone(), ivalue.clone());\n        }", "        krate.features.insert(ikey.clone(), ivalue.clone());"))
c("i-empty", "C34", (I, "krate.features.insert(ikey.clone(), ivalue.clone());", "krate.features.insert(ikey.clone(), ivalue.iter().filter(|v| !v.contains(\"?/\")).cloned().collect());"))
c("i-nodep", "C34", (I, 'format!("dep:{missing}")', 'missing.clone()'))
c("i-all-kinds", "C34", (I, "                    None\n                } else {\n                    Some(simple.to_owned())", "                    None\n                } else if features.contains_key(simple) {\n                    None\n                } else {\n                    Some(simple.to_owned())"))
c("i-first-version", "C34", (I, ".find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))", ".next().map(|ikv| &ikv.features)"))
c("i-early", "C34", (I, "    let Some(features) = index.index_krate_features(&krate.name, &krate.version) else {\n        return;\n    };\n", "    let Some(features) = index.index_krate_features(&krate.name, &krate.version) else {\n        return;\n    };\n    if features.is_empty() { return; }\n"))
c("i-crates-io", "C34", (C, 'self.repr == "registry+https://github.com/rust-lang/crates.io-index"', 'self.repr.starts_with("registry+https://github.com/rust-lang/")'))
# --- errors
c("e-source-none", "C33", (E, "            Self::Metadata(err) => Some(err),\n            _ => None,", "            _ => None,"))
c("e-cm-source", "C33", (CE, "            Self::ErrUtf8(err) => Some(err),\n            Self::Json", "            Self::Json"))
c("e-cm-inner-source", "C33", (E, "Self::Metadata(err) => Some(err),\n            _", "Self::Metadata(err) => std::error::Error::source(err),\n            _"))
c("e-msg", "C33", (CE, "failed to interpret `cargo metadata`'s json: {err}\")", "failed to interpret `cargo metadata`'s json on line {}\", err.line())"))
c("e-wrongvariant", "C33", (CE, "        Self::ErrUtf8(value)", "        Self::Utf8(value.utf8_error())"))
c("e-json-io", "C33", (CE, "        Self::Json(value)\n", "        if value.is_io() { Self::Io(value.into()) } else { Self::Json(value) }\n"))
c("e-stderr-msg", "C33", (CE, "exited with an error: {stderr}\")", "exited with an error: {}\", stderr.lines().next().unwrap_or(\"\"))"))
# --- cmd
c("c-features-space", None, (CMD, 'self.features.join(",")', 'self.features.join(" ")'))
c("c-feat-single", "C26", (CMD, "Features::Selected(features) => self.features.extend(features),", "Features::Selected(features) => self.features = features,"))
c("c-alldefault", "C26", (CMD, "        if self.no_default_features {", "        else if self.no_default_features {"))
c("c-other-early", "C26", (CMD, "        cmd.args(&self.other_options);\n\n", ""), (CMD, "        if self.no_deps {\n            cmd.arg", "        cmd.args(&self.other_options);\n        if self.no_deps {\n            cmd.arg"))
c("c-other-append", "C26", (CMD, "self.other_options = options.into();", "self.other_options.extend(options.into());"))
c("c-env-keep", "C26", (CMD, "self.env.insert(key.into(), val.into());", "self.env.entry(key.into()).or_insert(val.into());"))
c("c-cargo-order", "C26", (CMD, """        let cargo = self
            .cargo_path
            .clone()
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())
""", """        let cargo = std::env::var("CARGO").map(PathBuf::from).ok()
            .or_else(|| self.cargo_path.clone())
"""))
c("c-cwd-manifest", "C26", (CMD, "        if let Some(path) = self.current_dir.as_ref() {\n            cmd.current_dir(path);\n        }", "        if let (Some(path), None) = (self.current_dir.as_ref(), self.manifest_path.as_ref()) {\n            cmd.current_dir(path);\n        }"))
c("c-manifest-dir", "C26", (CMD, "cmd.arg(\"--manifest-path\").arg(manifest_path.as_os_str());", "cmd.arg(\"--manifest-path\").arg(manifest_path.file_name().unwrap_or(manifest_path.as_os_str()));"))
c("c-nodeps-features", "C26", (CMD, "if !self.features.is_empty() {", "if !self.features.is_empty() && !self.all_features {"))
c("c-clear-env", "C26", (CMD, "cmd.envs(&self.env);", "cmd.env_clear().envs(&self.env);"))
c("x-status", "C27", (CMD, "if !output.status.success() {", "if !output.status.success() && output.stdout.is_empty() {"))
c("x-code", "C27", (CMD, "if !output.status.success() {", "if output.status.code().is_some_and(|c| c != 0) {"))
c("x-lossy", "C27", (CMD, "String::from_utf8(output.stderr)?", "String::from_utf8_lossy(&output.stderr).into_owned()"))
c("x-lossy-out", "C27", (CMD, """        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()""", """        let stdout = String::from_utf8_lossy(&output.stdout);
        let stdout = stdout
            .lines()"""))
c("x-last-line", "C27", (CMD, "            .find(|line| line.starts_with('{'))", "            .filter(|line| line.starts_with('{')).last()"))
c("x-contains", "C27", (CMD, "line.starts_with('{')", "line.contains('{')"))
c("x-trim", "C27", (CMD, "line.starts_with('{')", "line.trim_start().starts_with('{')"))
c("x-stderr", "C27", (CMD, "stderr: String::from_utf8(output.stderr)?", "stderr: String::from_utf8(output.stdout)?"))
# --- de
c("d-swap", "C28", (D, '"homepage" => homepage = tri!(map.next_value()),', '"homepage" => repository = tri!(map.next_value()),'))
c("d-key-deps", "C28", (D, '"documentation" => documentation', '"docs" => documentation'))
c("d-first-wins", None, (D, '            "name" => name = Some(tri!(map.next_value())),\n            "pkg"', '            "name" if name.is_none() => name = Some(tri!(map.next_value())),\n            "pkg"'))
c("d-required-us", "C28", (D, '"required-features"', '"required_features"'))
c("d-ignore-key", "C28", (D, '            "doc" => doc = tri!(map.next_value()),\n            _ => {\n                tri!(map.next_value::<Ignore>());\n            }', '            "doc" => doc = tri!(map.next_value()),\n            _ => {\n                let _ = map.next_value::<Ignore>();\n            }'))
c("d-test-default", "C29", (D, "let mut test = true;", "let mut test = false;"))
c("d-edition-default", "C29", (C, "        Self::E2015\n    }\n}", "        Self::E2021\n    }\n}"))
c("d-opt-default", "C29", (D, "optional: required!(optional),", "optional: optional.unwrap_or(false),"))
c("d-root-required", "C29", (D, "            \"root\" => root = Some(tri!(map.next_value())),", "            \"root\" => root = tri!(map.next_value()),"))
c("d-missing-name", "C29", (D, "target_directory: required!(target_directory),", "target_directory: match target_directory { Some(t) => t, None => return Err(Error::missing_field(\"target\")) },"))
c("d-null-list", "C29", (D, '"publish" => publish = tri!(map.next_value()),', '"publish" => publish = Some(tri!(map.next_value())),'))
c("d-kind-null", "C29", (D, "        } else {\n            Ok(Self::Normal)\n        }", "        } else {\n            Ok(Self::Build)\n        }"))
c("d-rv-one", "C28", (D, "count()..2", "count()..1"))
c("d-rv-pre", "C28", (D, "if c == '-' {", "if c == '~' {"))
c("d-lowercase", "C28", (D, "repr: tri!(String::deserialize(deserializer)),\n        })\n    }\n}\n\nmacro_rules! map", "repr: tri!(String::deserialize(deserializer)).to_lowercase(),\n        })\n    }\n}\n\nmacro_rules! map"))
c("d-ign-seq", "C28", (D, "while let Some(Self) = tri!(seq.next_element()) {}", "let _: Option<Self> = tri!(seq.next_element());"))
c("d-ign-map", "C28", (D, "while let Some((Self, Self)) = tri!(map.next_entry()) {}", "let _: Option<(Self, Self)> = tri!(map.next_entry());"))
c("d-dep-kinds", "C28", (D, '"dep_kinds" => dep_kinds = tri!(map.next_value()),', '"dep_kinds" => { dep_kinds = tri!(map.next_value()); dep_kinds.dedup_by(|a: &mut DepKindInfo, b: &mut DepKindInfo| a.kind == b.kind); }'))
# --- ser
c("s-drop", "C30", (S, "rename,\n        registry,", "rename,\n        ",))
c("s-cond", "C30", (S, "entries!(map, self, nodes, root);", "entries!(map, self, nodes);\n    if self.root.is_some() { entry!(map, self, root); }"))
c("s-rk", "C30", (S, 'entry!(map, self, required_features, "required-features");', 'entry!(map, self, required_features);'))
c("s-wrongfield", "C30", (S, 'entry!(map, self, workspace_metadata, "metadata");', 'entry!(map, self, workspace_metadata);'))
c("s-skip-links", "C30", (S, "entries!(map, self, links, publish, default_run, rust_version);", "entries!(map, self, links, default_run, rust_version);\n    if self.publish.as_ref().is_some_and(|p| !p.is_empty()) { entry!(map, self, publish); }"))
c("s-dup", "C30", (S, "entries!(map, self, kind, target);", "entries!(map, self, kind, target);\n    if self.target.is_some() { entry!(map, self, target); }"))
c("s-version", "C30", (S, "    entry!(map, self, version);\n", "    map.serialize_entry(\"version\", &1)?;\n"))
c("s-kind-null", "C31", (S, '            Self::Normal => "normal",\n            Self::Development => "dev",', '            Self::Normal => "",\n            Self::Development => "dev",'))
c("n-tk", "C31", (S, '            Self::CustomBuild => "custom-build",', '            Self::CustomBuild => "build-script",'))
c("n-ct", "C31", (C, '"dylib" => Self::DyLib,\n            "cdylib" => Self::CDyLib,\n            "staticlib" => Self::StaticLib,\n            "proc-macro" => Self::ProcMacro,\n            x => return Err(format!("unknown crate type', '"dylib" | "cdylib" => Self::DyLib,\n            "staticlib" => Self::StaticLib,\n            "proc-macro" => Self::ProcMacro,\n            x => return Err(format!("unknown crate type'))
c("n-unknown", "C31", (C, 'x => return Err(format!("unknown target kind {x}")),', '_ => Self::Lib,'))
c("n-trim", "C31", (C, 'Ok(match value {\n            "2015"', 'Ok(match value.trim() {\n            "2015"'))
c("n-dk-conv", "C31", (L, "DK::Build => Self::Build,\n            DK::Development => Self::Dev,", "DK::Build => Self::Dev,\n            DK::Development => Self::Build,"))
c("n-dk-eq", "C31", (L, "| (Self::Dev, DK::Development)", "| (Self::Dev, DK::Development) | (Self::Dev, DK::Build)"))
c("n-disp", "C31", (C, 'Self::Development => f.write_str("dev"),', 'Self::Development => f.write_str("development"),'))
# --- cm queries
c("q-root-fallback", "C32", (C, "let root = resolve.root.as_ref()?;\n            self.packages.iter().find(|pkg| &pkg.id == root)", "let root = resolve.root.as_ref().or(self.workspace_members.first())?;\n            self.packages.iter().find(|pkg| &pkg.id == root)"))
c("q-root-name", "C32", (C, "pkg.manifest_path == root_manifest_path", "pkg.manifest_path.ends_with(\"Cargo.toml\") && root_manifest_path.starts_with(pkg.manifest_path.parent().unwrap())"))
c("q-default", "C32", (C, "self.workspace_default_members.contains(&p.id)", "self.workspace_members.contains(&p.id)"))
c("q-lic", "C32", (C, "        self.license_file.as_ref().map(|file| {", "        self.license_file.as_ref().filter(|f| f.is_relative()).map(|file| {"))
c("q-readme", "C32", (C, "        self.readme.as_ref().map(|file| {\n            self.manifest_path\n                .parent()", "        self.readme.as_ref().map(|file| {\n            self.manifest_path\n                .parent().and_then(|p| p.parent())"))
c("q-lib", "C32", (C, "self.is_kind(TargetKind::Lib)", "self.is_kind(TargetKind::Lib) || self.is_kind(TargetKind::RLib)"))
c("q-kind-first", "C32", (C, "self.kind.iter().any(|kind| kind == &name)", "self.kind.first() == Some(&name)"))
c("q-members-source", "C32", (C, ".filter(|&p| self.workspace_members.contains(&p.id))", ".filter(|&p| p.source.is_none() && self.workspace_members.contains(&p.id))"))
# --- lib queries
c("l-krates-take", "C20", (L, "        self.graph.raw_nodes()[..self.krates_end]\n            .iter()\n            .filter_map(move |node| {", "        self.graph.raw_nodes()[..self.krates_end]\n            .iter().rev()\n            .filter_map(move |node| {"))
c("l-raw", "C20", (L, "        self.graph.raw_nodes()[..self.krates_end]\n            .iter()\n            .filter_map(move |node| {", "        self.graph.raw_nodes()[..self.krates_end]\n            .iter()\n            .skip_while(|n| matches!(&n.weight, Node::Krate { features, .. } if features.is_empty() && false)).take(self.workspace_members.len().max(1) * 64)\n            .filter_map(move |node| {"))
c("l-dep-index", "C14", (L, "            .get(dep_index)\n            .copied()\n            .flatten()", "            .iter()\n            .copied()\n            .flatten()\n            .nth(dep_index)"))
c("l-dep-nid", "C14", (L, "        if nid.index() >= self.krates_end {\n            return None;\n        }\n\n", ""))
c("l-dep-gt", "C14", (L, "if nid.index() >= self.krates_end {", "if nid.index() > self.graph.node_count() {"))
c("l-lookup-all", "C10", (L, "        self.graph.raw_nodes()[..self.krates_end]\n            .binary_search_by(|rn| {\n                if let Node::Krate { id, .. } = &rn.weight {\n                    id.cmp(kid)", "        self.graph.raw_nodes()[..self.krates_end]\n            .binary_search_by(|rn| {\n                if let Node::Krate { id, .. } = &rn.weight {\n                    id.name().cmp(kid.name())"))
c("l-lookup-err", "C10", (L, "            .ok()\n            .map(NodeId::new)", "            .map_or_else(|i| (i < self.krates_end).then_some(i), Some)\n            .map(NodeId::new)"))
c("l-lookup-rev", "C10", (L, "                    id.cmp(kid)\n", "                    kid.cmp(id)\n"))
c("l-getnode-name", "C20", (L, "if *krate_index == nid && name == feat {", "if name == feat {"))
c("l-getnode-prefix", "C20", (L, "if *krate_index == nid && name == feat {", "if *krate_index == nid && name.starts_with(feat) {"))
c("l-getnode-src", "C20", (L, "return Some((edge.source(), &self.graph[edge.source()]));", "return Some((edge.source(), &self.graph[edge.target()]));"))
c("l-wm-dedup", "C20", (L, "            .filter_map(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))", "            .map_while(move |pid| self.nid_for_kid(pid).map(|ind| &self.graph[ind]))"))
c("l-search-eq", "C19", (L, "krate.name() == name && req.matches(krate.version())", "krate.name() == name && (req.matches(krate.version()) || !krate.version().pre.is_empty())"))
c("l-search-takewhile", "C19", (L, "                    if krate.name() == name {\n                        return Some(KrateMatch {\n                            node_id: NodeId::new(index),", "                    if krate.name() == name {\n                        return Some(KrateMatch {\n                            node_id: NodeId::new(index + 1),"))
c("l-search-id", "C19", (L, "                    if krate.name() == name {\n", "                    if id.name() == name {\n"))
c("l-idx", "C20", (L, "match &self.graph.raw_nodes()[idx].weight {", "match &self.graph.raw_nodes()[idx.min(self.krates_end - 1)].weight {"))
c("l-dd-visit", "C16", (L, "                        if visited.insert(edge.target()) {\n                            direct_dependencies.push", "                        if edge.target() != nid && visited.insert(edge.target()) {\n                            direct_dependencies.push"))
c("l-dd-dup", "C16", (L, "                        if visited.insert(edge.target()) {\n                            direct_dependencies.push", "                        if visited.insert(edge.target()) || nid != edge.source() {\n                            direct_dependencies.push"))
c("l-dd-nofeat", "C16", (L, "                    Node::Feature { .. } => {\n                        if visited.insert(edge.target()) {\n                            stack.push(edge.target());\n                        }\n                    }\n                }\n            }\n        }\n\n        direct_dependencies", "                    Node::Feature { .. } => {\n                        if stack.is_empty() && visited.insert(edge.target()) {\n                            stack.push(edge.target());\n                        }\n                    }\n                }\n            }\n        }\n\n        direct_dependencies"))
c("l-dep-owner", "C17", (L, "if *krate_index == nid && visited.insert(edge.source()) {", "if visited.insert(edge.source()) {"))
c("l-dep-owner-edge", "C17", (L, "                                node_id: edge.source(),\n", "                                node_id: nid,\n"))
c("l-filt-feature", None, (L, "Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {\n                        if *kind == filter {", "Edge::DepFeature { kind, .. } if *kind != DepKind::Normal && *kind != filter => {}\n                    Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {\n                        if *kind == filter {"))
c("l-filt-featskip", "C18", (L, "Edge::Dep { kind, .. } | Edge::DepFeature { kind, .. } => {\n                        if *kind == filter {", "Edge::DepFeature { .. } => {}\n                    Edge::Dep { kind, .. } => {\n                        if *kind == filter {"))
c("l-filt-visited", "C18", (L, "                        if visited.insert(edge.target()) {\n                            stack.push(edge.target());\n                            filtered.insert(id, krate);\n                        }", "                        if visited.insert(edge.target()) {\n                            filtered.insert(id, krate);\n                            if !self.workspace_members.contains(id) { stack.push(edge.target()); }\n                        }"))
c("l-filt-break", "C18", (L, "                        if *kind == filter {\n                            continue;", "                        if *kind == filter {\n                            break;"))
c("l-kid-cmp", None, (L, "self.version().hash(state);\n", ""))
c("l-kid-hash", "C21", (L, "        self.source().hash(state);\n", "        self.repr.hash(state);\n"))
# --- safety
c("z-pub-graph", "C36", (L, "    graph: petgraph::Graph<Node<N>, E, petgraph::Directed, u32>,\n", "    pub graph: petgraph::Graph<Node<N>, E, petgraph::Directed, u32>,\n"))
c("z-mut", "C36", (L, "    /// Path to the root of the workspace where", "    #[inline]\n    pub fn krate_mut(&mut self, id: NodeId) -> Option<&mut N> {\n        match &mut self.graph[id] { Node::Krate { krate, .. } => Some(krate), _ => None }\n    }\n\n    /// Path to the root of the workspace where"))
c("z-indexmut", "C36", (L, "impl<N, E> std::ops::Index<usize> for Krates<N, E> {", "impl<N, E> std::ops::IndexMut<NodeId> for Krates<N, E> {\n    fn index_mut(&mut self, id: NodeId) -> &mut N {\n        match &mut self.graph[id] { Node::Krate { krate, .. } => krate, _ => panic!() }\n    }\n}\n\nimpl<N, E> std::ops::Index<usize> for Krates<N, E> {"))
c("z-hashset", None, (L, "        let mut visited = std::collections::BTreeSet::new();\n\n        while let Some(nid) = stack.pop() {\n            for edge in graph.edges_directed(nid, Direction::Outgoing) {\n                match edge.weight() {", "        let mut visited = std::collections::HashSet::new();\n        if visited.iter().any(|n: &NodeId| n.index() == 0) { return Vec::new(); }\n\n        while let Some(nid) = stack.pop() {\n            for edge in graph.edges_directed(nid, Direction::Outgoing) {\n                match edge.weight() {"))
c("z-env", "C35", (I, "    let Some(features) = index.index_krate_features", "    if std::env::var_os(\"KRATES_OFFLINE\").is_some() {\n        return;\n    }\n\n    let Some(features) = index.index_krate_features"))
# --- errors of the build
c("b-noroot-ok", "C13", (B, "return Err(Error::NoRootKrates);", "return Err(Error::NoResolveGraph);"))
