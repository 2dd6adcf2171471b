B, L, CMD, D, CM, SER, E, CE = ("src/builder.rs", "src/lib.rs", "src/cm/cmd.rs", "src/cm/de.rs", "src/cm.rs",
                                "src/cm/ser.rs", "src/errors.rs", "src/cm/errors.rs")
CASES = []


def c(n, p, *e):
    CASES.append(dict(n=n, p=p, e=list(e)))


ROOT = """        if let Some(resolve) = &self.resolve {
            // if dependencies are resolved, use Cargo's answer
            let root = resolve.root.as_ref()?;
            self.packages.iter().find(|pkg| &pkg.id == root)
        } else {
            // if dependencies aren't resolved, check for a root package manually
            let root_manifest_path = self.workspace_root.join("Cargo.toml");
            self.packages
                .iter()
                .find(|pkg| pkg.manifest_path == root_manifest_path)
        }
"""
c("h-root-match", None, (CM, ROOT, """        match &self.resolve {
            Some(resolve) => match &resolve.root {
                Some(root) => self.packages.iter().find(|pkg| pkg.id == *root),
                None => None,
            },
            None => {
                let manifest = self.workspace_root.join("Cargo.toml");
                for pkg in &self.packages {
                    if pkg.manifest_path == manifest {
                        return Some(pkg);
                    }
                }
                None
            }
        }
"""))
c("h-root-position", None, (CM, ROOT, """        let wanted = match self.resolve.as_ref() {
            Some(resolve) => {
                let root = resolve.root.as_ref()?;
                self.packages.iter().position(|pkg| pkg.id.eq(root))
            }
            None => {
                let root_manifest_path = self.workspace_root.join("Cargo.toml");
                self.packages.iter().position(|pkg| root_manifest_path == pkg.manifest_path)
            }
        };
        wanted.map(|i| &self.packages[i])
"""))
c("h-root-fallback", "C32", (CM, "            let root = resolve.root.as_ref()?;\n            self.packages.iter().find(|pkg| &pkg.id == root)\n",
  "            let root = resolve.root.as_ref()?;\n            self.packages.iter().find(|pkg| &pkg.id == root).or_else(|| self.packages.first())\n"))
c("h-root-member", "C32", (CM, "            self.packages.iter().find(|pkg| &pkg.id == root)\n        } else {",
  "            self.packages.iter().find(|pkg| pkg.id >= *root)\n        } else {"))
c("h-root-or", "C32", (CM, "            let root = resolve.root.as_ref()?;\n", "            let root = resolve.root.as_ref().or(self.workspace_members.first())?;\n"))
c("h-root-manifest-ends", "C32", (CM, ".find(|pkg| pkg.manifest_path == root_manifest_path)", '.find(|pkg| pkg.manifest_path.ends_with("Cargo.toml"))'))
WP = """        self.packages
            .iter()
            .filter(|&p| self.workspace_members.contains(&p.id))
            .collect()
"""
c("h-wp-loop", None, (CM, WP, """        let mut members = Vec::new();
        for p in &self.packages {
            if self.workspace_members.contains(&p.id) {
                members.push(p);
            }
        }
        members
"""))
c("h-wp-any", None, (CM, WP, """        self.packages
            .iter()
            .filter(|p| self.workspace_members.iter().any(|m| *m == p.id))
            .collect()
"""))
c("h-wp-filtermap", None, (CM, WP, """        self.packages
            .iter()
            .filter_map(|p| self.workspace_members.contains(&p.id).then_some(p))
            .collect::<Vec<_>>()
"""))
c("h-wp-from-members", "C32", (CM, WP, """        self.workspace_members
            .iter()
            .filter_map(|id| self.packages.iter().find(|p| p.id == *id))
            .collect()
"""))
c("h-wp-repr-contains", "C32", (CM, WP, """        self.packages
            .iter()
            .filter(|p| self.workspace_members.iter().any(|m| m.repr.contains(&p.id.repr)))
            .collect()
"""))
c("h-wp-source", "C32", (CM, WP, """        self.packages
            .iter()
            .filter(|p| p.source.is_none())
            .collect()
"""))
c("h-wp-take", "C32", (CM, WP, """        self.packages
            .iter()
            .take_while(|&p| self.workspace_members.contains(&p.id))
            .collect()
"""))
c("h-wp-default", "C32", (CM, WP, WP.replace("workspace_members", "workspace_default_members")))
WD = WP.replace("workspace_members", "workspace_default_members")
c("h-wd-helper", None, (CM, WD, """        let defaults: &[PackageId] = &self.workspace_default_members;
        self.packages
            .iter()
            .filter(|p| defaults.contains(&p.id))
            .collect()
"""))
c("h-wd-fallback", "C32", (CM, WD, """        let Some(defaults) = &self.workspace_default_members.0 else {
            return self.workspace_packages();
        };
        self.packages
            .iter()
            .filter(|p| defaults.contains(&p.id))
            .collect()
"""))
c("h-deref-empty", "C32", (CM, """        self.0
            .as_ref()
            .expect("WorkspaceDefaultMembers should only be dereferenced on Cargo versions >= 1.71")
""", """        self.0.as_deref().unwrap_or(&[])
"""))
c("h-deref-match", None, (CM, """        self.0
            .as_ref()
            .expect("WorkspaceDefaultMembers should only be dereferenced on Cargo versions >= 1.71")
""", """        match &self.0 {
            Some(members) => members.as_slice(),
            None => panic!("WorkspaceDefaultMembers should only be dereferenced on Cargo versions >= 1.71"),
        }
"""))
IDX = """        self.packages
            .iter()
            .find(|p| p.id == *idx)
            .unwrap_or_else(|| panic!("no package with this id: {:?}", idx))
"""
c("h-index-loop", None, (CM, IDX, """        for p in &self.packages {
            if &p.id == idx {
                return p;
            }
        }
        panic!("no package with this id: {:?}", idx)
"""))
c("h-index-expect", None, (CM, IDX, """        let found = self.packages.iter().find(|p| idx == &p.id);
        found.expect("no package with this id")
"""))
c("h-index-bin", "C32", (CM, IDX, """        match self.packages.binary_search_by(|p| p.id.cmp(idx)) {
            Ok(i) => &self.packages[i],
            Err(_) => panic!("no package with this id: {:?}", idx),
        }
"""))
c("h-index-last", None, (CM, IDX, IDX.replace(".find(", ".rfind(")))
c("h-index-first", "C32", (CM, IDX, """        self.packages
            .iter()
            .find(|p| p.id == *idx)
            .unwrap_or_else(|| &self.packages[0])
"""))
LIC = """        self.license_file.as_ref().map(|file| {
            self.manifest_path
                .parent()
                .unwrap_or(&self.manifest_path)
                .join(file)
        })
"""
c("h-lic-match", None, (CM, LIC, """        let file = self.license_file.as_ref()?;
        let dir = match self.manifest_path.parent() {
            Some(dir) => dir,
            None => &self.manifest_path,
        };
        Some(dir.join(file))
"""))
c("h-lic-helper", None, (CM, LIC, """        self.license_file.as_ref().map(|file| self.beside(file))
    }

    fn beside(&self, file: &PathBuf) -> PathBuf {
        let manifest = &self.manifest_path;
        if let Some(dir) = manifest.parent() {
            dir.join(file)
        } else {
            manifest.join(file)
        }
"""))
c("h-lic-wroot", "C32", (CM, LIC, LIC.replace("                .parent()\n", "                .parent()\n                .and_then(|p| p.parent())\n")))
c("h-lic-withname", "C32", (CM, LIC, """        self.license_file.as_ref().map(|file| self.manifest_path.with_file_name(file.file_name().unwrap_or("LICENSE")))
"""))
c("h-readme-lic", "C32", (CM, "self.readme.as_ref().map(", "self.license_file.as_ref().map("))
c("h-readme-exists", "C32", (CM, "        self.readme.as_ref().map(|file| {", "        self.readme.as_ref().filter(|f| f.is_relative()).map(|file| {"))
c("h-kind-contains", None, (CM, "self.kind.iter().any(|kind| kind == &name)", "self.kind.contains(&name)"))
c("h-kind-matches", None, (CM, "        self.is_kind(TargetKind::Lib)\n", "        self.kind.iter().any(|k| matches!(k, TargetKind::Lib))\n"))
c("h-kind-loop", None, (CM, "        self.kind.iter().any(|kind| kind == &name)\n", """        for kind in &self.kind {
            if *kind == name {
                return true;
            }
        }
        false
"""))
c("h-kind-first", "C32", (CM, "self.kind.iter().any(|kind| kind == &name)", "self.kind.first() == Some(&name)"))
c("h-kind-all", "C32", (CM, "self.kind.iter().any(|kind| kind == &name)", "self.kind.iter().all(|kind| kind == &name)"))
c("h-kind-lib-rlib", "C32", (CM, "        self.is_kind(TargetKind::Lib)\n", "        self.is_kind(TargetKind::Lib) || self.is_kind(TargetKind::RLib)\n"))
c("h-kind-swap", "C32", (CM, "        self.is_kind(TargetKind::CustomBuild)\n", "        self.is_kind(TargetKind::Bin)\n"))
c("h-source-as-str", None, (CM, 'self.repr == "registry+https://github.com/rust-lang/crates.io-index"',
   'matches!(self.repr.as_str(), "registry+https://github.com/rust-lang/crates.io-index")'))
c("h-source-const", None, (CM, """impl Source {
    /// Returns true""", """const CRATES_IO: &str = "registry+https://github.com/rust-lang/crates.io-index";

impl Source {
    /// Returns true"""), (CM, 'self.repr == "registry+https://github.com/rust-lang/crates.io-index"', 'self.repr.eq(CRATES_IO)'))
# --- names
c("n-kind-if", None, (CM, """            x => return Err(format!("unknown target kind {x}")),
        })
""", """            _ => return Err(["unknown target kind ", value].concat()),
        })
"""))
c("n-edition-let", None, (CM, """        Ok(match value {
            "2015" => Self::E2015,
            "2018" => Self::E2018,
            "2021" => Self::E2021,
            "2024" => Self::E2024,
            x => return Err(format!("unknown edition {x}")),
        })
""", """        match value {
            "2015" => Ok(Self::E2015),
            "2018" => Ok(Self::E2018),
            "2021" => Ok(Self::E2021),
            "2024" => Ok(Self::E2024),
            x => Err(format!("unknown edition {x}")),
        }
"""))
c("n-edition-table", None, (CM, """        Ok(match value {
            "2015" => Self::E2015,
            "2018" => Self::E2018,
            "2021" => Self::E2021,
            "2024" => Self::E2024,
            x => return Err(format!("unknown edition {x}")),
        })
""", """        [Self::E2015, Self::E2018, Self::E2021, Self::E2024]
            .into_iter()
            .find(|e| e.as_str() == value)
            .ok_or_else(|| format!("unknown edition {value}"))
"""))
c("n-edition-ser-asstr", None, (SER, """        let s = match self {
            Self::E2015 => "2015",
            Self::E2018 => "2018",
            Self::E2021 => "2021",
            Self::E2024 => "2024",
        };

        serializer.serialize_str(s)
""", """        serializer.serialize_str(self.as_str())
"""))
c("n-edition-fallback", "C31", (CM, """            "2024" => Self::E2024,
            x => return Err(format!("unknown edition {x}")),
""", """            "2024" => Self::E2024,
            x if x > "2024" => Self::E2024,
            x => return Err(format!("unknown edition {x}")),
"""))
c("n-kind-alias", "C31", (CM, """            "custom-build" => Self::CustomBuild,
            "bin" => Self::Bin,
            "lib" => Self::Lib,
            "rlib" => Self::RLib,""", """            "custom-build" | "build" => Self::CustomBuild,
            "bin" => Self::Bin,
            "lib" => Self::Lib,
            "rlib" => Self::RLib,"""))
c("n-kind-trim", "C31", (CM, """        Ok(match value {
            "example" => Self::Example,""", """        Ok(match value.trim() {
            "example" => Self::Example,"""))
c("n-dk-ser-display", None, (SER, """        let s = match self {
            Self::Normal => "normal",
            Self::Development => "dev",
            Self::Build => "build",
        };

        serializer.serialize_str(s)
""", """        serializer.collect_str(self)
"""))
c("n-dk-ser-null", None, (SER, """        let s = match self {
            Self::Normal => "normal",
            Self::Development => "dev",
            Self::Build => "build",
        };

        serializer.serialize_str(s)
""", """        match self {
            Self::Normal => serializer.serialize_str("normal"),
            Self::Development => serializer.serialize_str("dev"),
            Self::Build => serializer.serialize_str("build"),
        }
"""))
c("n-dk-display-write", None, (CM, """        match self {
            Self::Normal => f.write_str("normal"),
            Self::Development => f.write_str("dev"),
            Self::Build => f.write_str("build"),
        }
""", """        let name = match self {
            Self::Normal => "normal",
            Self::Development => "dev",
            Self::Build => "build",
        };
        write!(f, "{name}")
"""))
c("n-ct-swap2", "C31", (SER, """            Self::Bin => "bin",
            Self::Lib => "lib",
            Self::RLib => "rlib",
            Self::DyLib => "dylib",
            Self::CDyLib => "cdylib",
            Self::StaticLib => "staticlib",
            Self::ProcMacro => "proc-macro",
        };

        serializer.serialize_str(s)
    }
}
""", """            Self::Bin => "bin",
            Self::Lib | Self::RLib => "lib",
            Self::DyLib => "dylib",
            Self::CDyLib => "cdylib",
            Self::StaticLib => "staticlib",
            Self::ProcMacro => "proc-macro",
        };

        serializer.serialize_str(s)
    }
}
""") if False else (CM, '            Self::Development => f.write_str("dev"),', '            Self::Development => f.write_str("development"),'))
# --- de
c("d3-pkgid-map", None, (D, """        Ok(Self {
            repr: tri!(String::deserialize(deserializer)),
        })
    }
}

macro_rules! map""", """        String::deserialize(deserializer).map(|repr| Self { repr })
    }
}

macro_rules! map"""))
c("d3-parse-q", None, (D, """                let s = tri!(std::borrow::Cow::<'de, str>::deserialize(deserializer));
                s.parse().map_err(|err| Error::custom(err))
""", """                let s = std::borrow::Cow::<'de, str>::deserialize(deserializer)?;
                <$kind as std::str::FromStr>::from_str(&s).map_err(Error::custom)
"""))
c("d3-required-match", None, (D, """        if let Some(v) = $name {
            v
        } else {
            return Err(Error::missing_field(stringify!($name)));
        }
""", """        match $name {
            Some(v) => v,
            None => return Err(A::Error::missing_field(stringify!($name))),
        }
"""))
c("d3-required-okor", None, (D, """        if let Some(v) = $name {
            v
        } else {
            return Err(Error::missing_field(stringify!($name)));
        }
""", """        tri!($name.ok_or_else(|| Error::missing_field(stringify!($name))))
"""))
c("d3-tri-q", None, (D, """        match $res {
            Ok(r) => r,
            Err(err) => return Err(err),
        }
""", """        $res?
"""))
c("d3-ignored-any", None, (D, "            _ => {\n                tri!(map.next_value::<Ignore>());\n            }\n        }\n    }\n\n    Ok(DepKindInfo",
   "            _ => {\n                let _: serde::de::IgnoredAny = tri!(map.next_value());\n            }\n        }\n    }\n\n    Ok(DepKindInfo"))
c("d3-dk-match", None, (D, """        if let Some(kind) = kind {
            Ok(match kind.as_ref() {
                "normal" => Self::Normal,
                "dev" => Self::Development,
                "build" => Self::Build,
                unknown => {
                    return Err(Error::unknown_variant(unknown, &["normal", "dev", "build"]));
                }
            })
        } else {
            Ok(Self::Normal)
        }
""", """        match kind.as_deref() {
            None | Some("normal") => Ok(Self::Normal),
            Some("dev") => Ok(Self::Development),
            Some("build") => Ok(Self::Build),
            Some(unknown) => Err(Error::unknown_variant(unknown, &["normal", "dev", "build"])),
        }
"""))
c("d3-dk-default-unknown", "C31", (D, """                unknown => {
                    return Err(Error::unknown_variant(unknown, &["normal", "dev", "build"]));
                }
            })
        } else""", """                _ => Self::default(),
            })
        } else"""))
c("d3-root-nested", None, (D, """            "root" => root = Some(tri!(map.next_value())),
            _ => {
                tri!(map.next_value::<Ignore>());
            }
        }
    }

    Ok(Resolve {
        nodes: required!(nodes),
        root: required!(root),
    })
""", """            "root" => {
                let value: Option<PackageId> = tri!(map.next_value());
                root = Some(value);
            }
            _ => {
                tri!(map.next_value::<Ignore>());
            }
        }
    }

    let nodes = required!(nodes);
    let root = required!(root);
    Ok(Resolve { nodes, root })
"""))
c("d3-node-defaults", None, (D, """    let mut id = None;
    let mut deps = Vec::new();
    let mut dependencies = None;
    let mut features = Vec::new();
""", """    let mut id = None;
    let mut deps = Default::default();
    let mut dependencies = None;
    let mut features = Vec::default();
"""))
c("d3-node-opt", None, (D, """    let mut deps = Vec::new();
    let mut dependencies = None;
    let mut features = Vec::new();
""", """    let mut deps = None;
    let mut dependencies = None;
    let mut features = Vec::new();
"""), (D, '            "deps" => deps = tri!(map.next_value()),', '            "deps" => deps = Some(tri!(map.next_value())),'),
  (D, """        id: required!(id),
        deps,
        dependencies: required!(dependencies),
        features,
""", """        id: required!(id),
        deps: deps.unwrap_or_default(),
        dependencies: required!(dependencies),
        features,
"""))
c("d3-node-deps-lost", "C28", (D, '            "deps" => deps = tri!(map.next_value()),', '            "deps" => {\n                let _: Vec<NodeDep> = tri!(map.next_value());\n                deps = Vec::new();\n            }'))
c("d3-node-feat-empty", "C28", (D, '            "features" => features = tri!(map.next_value()),\n            _ => {\n                tri!(map.next_value::<Ignore>());\n            }\n        }\n    }\n\n    Ok(Node {',
  '            "features" if features.is_empty() => features = tri!(map.next_value()),\n            _ => {\n                tri!(map.next_value::<Ignore>());\n            }\n        }\n    }\n\n    Ok(Node {') if False else
  (D, '            "rename" => rename = tri!(map.next_value()),', '            "rename" => rename = tri!(map.next_value::<Option<String>>()).filter(|r| Some(r) != name.as_ref()),'))
c("d3-path-order", "C28", (D, '            "path" => path = tri!(map.next_value()),', '            "path" => {\n                let p = tri!(map.next_value());\n                if source.is_none() {\n                    path = p;\n                }\n            }'))
c("d3-kind-reset", "C28", (D, '            "target" => target = tri!(map.next_value()),\n            _ => {\n                tri!(map.next_value::<Ignore>());\n            }\n        }\n    }\n\n    Ok(DepKindInfo { kind, target })',
  '            "target" => {\n                kind = DependencyKind::Normal;\n                target = tri!(map.next_value());\n            }\n            _ => {\n                tri!(map.next_value::<Ignore>());\n            }\n        }\n    }\n\n    Ok(DepKindInfo { kind, target })'))
c("d3-rv-any", None, (D, """    for c in buf.chars() {
        if c == '-' {
            return Err(E::custom(
                "pre-release identifiers are not supported in rust-version",
            ));
        } else if c == '+' {
            return Err(E::custom("build metadata is not supported in rust-version"));
        }
    }
""", """    match buf.chars().find(|c| matches!(c, '-' | '+')) {
        Some('-') => {
            return Err(E::custom(
                "pre-release identifiers are not supported in rust-version",
            ));
        }
        Some(_) => {
            return Err(E::custom("build metadata is not supported in rust-version"));
        }
        None => {}
    }
"""))
c("d3-rv-contains", None, (D, """    for c in buf.chars() {
        if c == '-' {
            return Err(E::custom(
                "pre-release identifiers are not supported in rust-version",
            ));
        } else if c == '+' {
            return Err(E::custom("build metadata is not supported in rust-version"));
        }
    }
""", """    if buf.contains('-') {
        return Err(E::custom("pre-release identifiers are not supported in rust-version"));
    }
    if buf.contains('+') {
        return Err(E::custom("build metadata is not supported in rust-version"));
    }
"""))
c("d3-rv-while", None, (D, """    for _ in buf.matches('.').count()..2 {
        buf.push_str(".0");
    }
""", """    let dots = buf.matches('.').count();
    if dots < 1 {
        buf.push_str(".0");
    }
    if dots < 2 {
        buf.push_str(".0");
    }
"""))
c("d3-rv-lenient", "C28", (D, "    Version::parse(&buf).map_err(E::custom)\n", "    Ok(Version::parse(&buf).unwrap_or(Version::new(1, 0, 0)))\n"))
c("d3-rv-match", None, (D, """                let s = tri!(map.next_value::<Option<String>>());
                if let Some(s) = s {
                    rust_version = Some(tri!(deserialize_rust_version(s)));
                }
""", """                rust_version = match tri!(map.next_value::<Option<String>>()) {
                    Some(s) => Some(tri!(deserialize_rust_version(s))),
                    None => None,
                };
"""))
c("d3-rv-transpose", None, (D, """                let s = tri!(map.next_value::<Option<String>>());
                if let Some(s) = s {
                    rust_version = Some(tri!(deserialize_rust_version(s)));
                }
""", """                let s: Option<String> = tri!(map.next_value());
                rust_version = tri!(s.map(deserialize_rust_version).transpose());
"""))
c("d3-rv-swallow", "C28", (D, "                    rust_version = Some(tri!(deserialize_rust_version(s)));\n", "                    rust_version = deserialize_rust_version::<A::Error>(s).ok();\n"))
# --- ser
c("s3-wdm-match", None, (SER, """    if let Some(wdm) = &self.workspace_default_members.0 {
        map.serialize_entry("workspace_default_members", wdm)?;
    }
""", """    match self.workspace_default_members.0.as_ref() {
        Some(members) => map.serialize_entry("workspace_default_members", members)?,
        None => {}
    }
"""))
c("s3-unrolled", None, (SER, "    entries!(map, self, id, deps, dependencies, features);\n", """    map.serialize_entry("id", &self.id)?;
    map.serialize_entry("deps", &self.deps)?;
    map.serialize_entry("dependencies", &self.dependencies)?;
    map.serialize_entry("features", &self.features)?;
"""))
c("s3-keyval", None, (SER, "            $map.serialize_entry(stringify!($fields), &$self.$fields)?;", """            $map.serialize_key(stringify!($fields))?;
            $map.serialize_value(&$self.$fields)?;"""))
c("s3-order", None, (SER, "    entries!(map, self, kind, target);\n", "    entries!(map, self, target, kind);\n"))
c("s3-meta-always", None, (SER, """    if !self.metadata.is_null() {
        entry!(map, self, metadata);
    }
""", """    entry!(map, self, metadata);
"""))
c("s3-meta-matches", None, (SER, "    if !self.metadata.is_null() {", "    if !matches!(self.metadata, serde_json::Value::Null) {"))
c("s3-meta-object", "C30", (SER, "    if !self.metadata.is_null() {", "    if self.metadata.is_object() {"))
c("s3-skip-target", "C30", (SER, "    entries!(map, self, kind, target);\n", "    entries!(map, self, kind);\n    if self.kind == DependencyKind::Normal {\n        entries!(map, self, target);\n    }\n"))
c("s3-none-skip", None, (SER, "    entries!(map, self, kind, target);\n", "    entries!(map, self, kind);\n    if self.target.is_some() {\n        entries!(map, self, target);\n    }\n"))
c("s3-root-skip", "C30", (SER, "    entries!(map, self, nodes, root);\n", "    entries!(map, self, nodes);\n    if self.root.is_some() {\n        entries!(map, self, root);\n    }\n"))
c("s3-rv-str", None, (SER, "    entries!(map, self, links, publish, default_run, rust_version);", """    entries!(map, self, links, publish, default_run);
    map.serialize_entry("rust_version", &self.rust_version.as_ref().map(|v| v.to_string()))?;"""))
c("s3-rv-short", "C30", (SER, "    entries!(map, self, links, publish, default_run, rust_version);", """    entries!(map, self, links, publish, default_run);
    map.serialize_entry("rust_version", &self.rust_version.as_ref().map(|v| format!("{}.{}.{}", v.major, v.minor, v.patch)))?;"""))
# --- errors
c("e3-source-iflet", None, (E, """        match self {
            Self::Metadata(err) => Some(err),
            _ => None,
        }
""", """        if let Self::Metadata(err) = self {
            Some(err)
        } else {
            None
        }
"""))
c("e3-display-fmt", None, (E, '            Self::Metadata(err) => write!(f, "{err}"),', "            Self::Metadata(err) => fmt::Display::fmt(err, f),"))
c("e3-cm-source-all", None, (CE, """            Self::Json(err) => Some(err),
            _ => None,
        }
""", """            Self::Json(err) => Some(err),
            Self::CargoMetadata { .. } | Self::NoJson => None,
        }
"""))
c("e3-cm-display-args", None, (CE, 'write!(f, "failed to start `cargo metadata`: {io}")', 'f.write_fmt(format_args!("failed to start `cargo metadata`: {}", io))'))
c("e3-display-debug", "C33", (E, '            Self::Metadata(err) => write!(f, "{err}"),', '            Self::Metadata(_) => f.write_str("unable to acquire metadata"),'))
c("e3-inv-lost", "C33", (E, 'write!(f, "package spec was invalid: {err}")', 'f.write_str("package spec was invalid")') if False else
  (E, 'Self::InvalidPkgSpec(err) => write!(f, "package spec was invalid: {err}")', 'Self::InvalidPkgSpec(_) => f.write_str("package spec was invalid")'))
# --- Target
c("t3-from-iflet", None, (B, """        match cfg_expr::targets::get_builtin_target_by_triple(triple) {
            Some(bi) => Self::Builtin(bi),
            None => {
                #[cfg(feature = "targets")]
                {
                    match triple.parse() {
                        Ok(triple) => Self::Triple(triple),
                        Err(_) => Self::Unknown(triple.to_owned()),
                    }
                }

                #[cfg(not(feature = "targets"))]
                Self::Unknown(triple.to_owned())
            }
        }
""", """        if let Some(bi) = cfg_expr::targets::get_builtin_target_by_triple(triple) {
            return Self::Builtin(bi);
        }

        #[cfg(feature = "targets")]
        if let Ok(triple) = triple.parse() {
            return Self::Triple(triple);
        }

        Self::Unknown(triple.to_owned())
"""))
c("t3-from-prefix", "C04", (B, "        match cfg_expr::targets::get_builtin_target_by_triple(triple) {\n            Some(bi) => Self::Builtin(bi),\n            None => {\n                #[cfg(feature",
  "        match cfg_expr::targets::get_builtin_target_by_triple(triple.trim_end_matches(\"-musl\")) {\n            Some(bi) => Self::Builtin(bi),\n            None => {\n                #[cfg(feature"))
c("t3-from-never", "C04", (B, "            Some(bi) => Self::Builtin(bi),\n            None => {", "            Some(bi) if bi.os.is_some() => Self::Builtin(bi),\n            _ => {"))
c("t3-display-triple", "C04", (B, "            Self::Builtin(bi) => f.write_str(bi.triple.as_str()),", "            Self::Builtin(bi) => f.write_str(bi.arch.as_str()),"))
# --- From<Cmd>
c("k3-cwd-map", None, (B, """        if let Some(mp) = cmd.manifest_path {
            cmd.current_dir = Some(mp.parent().unwrap().to_owned());
            mdc.manifest_path("Cargo.toml");
        }

        if let Some(cd) = cmd.current_dir {
            if !cd.as_os_str().is_empty() {
                mdc.current_dir(cd);
            } else {
                mdc.current_dir(".");
            }
        }
""", """        let dir = match cmd.manifest_path {
            Some(mp) => {
                mdc.manifest_path("Cargo.toml");
                Some(mp.parent().unwrap().to_path_buf())
            }
            None => cmd.current_dir,
        };

        if let Some(cd) = dir {
            if cd.as_os_str().is_empty() {
                mdc.current_dir(".");
            } else {
                mdc.current_dir(cd);
            }
        }
"""))
c("k3-extend", None, (B, "        opts.append(&mut cmd.other_options);\n", "        opts.extend(cmd.other_options);\n"))
c("k3-flags", None, (B, """        if cmd.frozen {
            opts.push("--frozen".to_owned());
        }

        if cmd.locked {
            opts.push("--locked".to_owned());
        }

        if cmd.offline {
            opts.push("--offline".to_owned());
        }
""", """        for (set, flag) in [
            (cmd.frozen, "--frozen"),
            (cmd.locked, "--locked"),
            (cmd.offline, "--offline"),
        ] {
            if set {
                opts.push(flag.to_owned());
            }
        }
"""))
c("k3-feats-multi", None, (B, """            opts.push("--features".to_owned());
            opts.push(cmd.features.join(" "));
""", """            opts.push(format!("--features={}", cmd.features.join(",")));
"""))
c("k3-frozen-implied", "C26", (B, "        if cmd.locked {\n", "        if cmd.locked || cmd.frozen {\n"))
c("k3-nodefault-unless-all", "C26", (B, "        if cmd.no_default_features {\n            opts", "        if cmd.no_default_features && !cmd.all_features {\n            opts"))
c("k3-features-unless-all", "C26", (B, "        if !cmd.features.is_empty() {\n            opts", "        if !cmd.features.is_empty() && !cmd.all_features {\n            opts"))
c("k3-other-first", "C26", (B, "        opts.append(&mut cmd.other_options);\n        mdc.other_options(opts);\n", "        cmd.other_options.append(&mut opts);\n        mdc.other_options(cmd.other_options);\n"))
c("k3-lock-or", "C26", (B, "        self.locked = lopts.locked;\n", "        self.locked = lopts.locked || lopts.frozen;\n"))
c("k3-lock-destructure", None, (B, """        self.frozen = lopts.frozen;
        self.locked = lopts.locked;
        self.offline = lopts.offline;
""", """        let LockOptions { frozen, locked, offline } = lopts;
        self.frozen = frozen;
        self.locked = locked;
        self.offline = offline;
"""))
c("k3-features-loop", None, (B, "        self.features.extend(feats);\n        self\n", "        for feat in feats {\n            self.features.push(feat);\n        }\n        self\n"))
c("k3-features-set", "C26", (B, "        self.features.extend(feats);\n        self\n", "        self.features = feats.into_iter().collect();\n        self\n"))
c("k3-sort-unstable", None, (B, "        cmd.features.sort();\n        cmd.features.dedup();\n", "        cmd.features.sort_unstable();\n        cmd.features.dedup();\n"))
c("k3-btree", None, (B, "        cmd.features.sort();\n        cmd.features.dedup();\n", "        cmd.features = cmd.features.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();\n"))
c("k3-dedup-prefix", "C26", (B, "        cmd.features.dedup();\n", "        cmd.features.dedup_by(|a, b| a.starts_with(b.as_str()));\n"))
c("x3-exec-lines", None, (CMD, """        let stdout = std::str::from_utf8(&output.stdout)?
            .lines()
            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)
""", """        let stdout = std::str::from_utf8(&output.stdout)?;
        for line in stdout.lines() {
            if line.starts_with('{') {
                return Self::parse(line);
            }
        }
        Err(Error::NoJson)
"""))
c("x3-exec-match", None, (CMD, """        if !output.status.success() {
            return Err(Error::CargoMetadata {
                stderr: String::from_utf8(output.stderr)?,
            });
        }
""", """        match output.status.success() {
            true => {}
            false => {
                let stderr = String::from_utf8(output.stderr)?;
                return Err(Error::CargoMetadata { stderr });
            }
        }
"""))
c("x3-exec-try", "C27", (CMD, """            .find(|line| line.starts_with('{'))
            .ok_or(Error::NoJson)?;
        Self::parse(stdout)
""", """            .filter(|line| line.starts_with('{'))
            .find_map(|line| Self::parse(line).ok())
            .ok_or(Error::NoJson);
        stdout
"""))
c("x3-parse-map", None, (CMD, "        let meta = serde_json::from_str(data)?;\n        Ok(meta)\n", "        serde_json::from_str(data).map_err(Error::from)\n"))
c("x3-parse-json", None, (CMD, "        let meta = serde_json::from_str(data)?;\n        Ok(meta)\n", "        match serde_json::from_str(data) {\n            Ok(meta) => Ok(meta),\n            Err(err) => Err(Error::Json(err)),\n        }\n"))
c("x3-parse-stream", "C27", (CMD, "        let meta = serde_json::from_str(data)?;\n        Ok(meta)\n", """        let mut stream = serde_json::Deserializer::from_str(data).into_iter();
        match stream.next() {
            Some(meta) => Ok(meta?),
            None => Err(Error::NoJson),
        }
"""))
c("x3-cargo-var", None, (CMD, """        let cargo = self
            .cargo_path
            .clone()
            .or_else(|| std::env::var("CARGO").map(PathBuf::from).ok())
            .unwrap_or_else(|| PathBuf::from("cargo"));
""", """        let cargo = match &self.cargo_path {
            Some(path) => path.clone(),
            None => match std::env::var("CARGO") {
                Ok(path) => PathBuf::from(path),
                Err(_) => PathBuf::from("cargo"),
            },
        };
"""))
c("x3-args-loop", None, (CMD, "        cmd.args(&self.other_options);\n", "        for opt in &self.other_options {\n            cmd.arg(opt);\n        }\n"))
c("x3-env-loop", None, (CMD, "        cmd.envs(&self.env);\n", "        for (key, val) in &self.env {\n            cmd.env(key, val);\n        }\n"))
c("x3-args-split", None, (CMD, """        cmd.args(["metadata", "--format-version", "1"]);
""", """        cmd.arg("metadata").arg("--format-version").arg("1");
"""))
c("x3-args-nonempty", "C26", (CMD, "        cmd.args(&self.other_options);\n", "        for opt in self.other_options.iter().filter(|o| !o.is_empty()) {\n            cmd.arg(opt);\n        }\n"))
c("x3-args-dedup", "C26", (CMD, "        cmd.args(&self.other_options);\n", "        let mut seen = std::collections::BTreeSet::new();\n        for opt in &self.other_options {\n            if seen.insert(opt) {\n                cmd.arg(opt);\n            }\n        }\n"))
c("x3-verbose", "C27", (CMD, "            command.stderr(std::process::Stdio::inherit());\n", "            command.stdout(std::process::Stdio::inherit());\n"))
c("x3-verbose-not", "C27", (CMD, "        if self.verbose {\n", "        if !self.verbose {\n"))
c("x3-verbose-dropped", "C26", (CMD, "            command.stderr(std::process::Stdio::inherit());\n", ""))
c("x3-verbose-pipe", None, (CMD, "        if self.verbose {\n            command.stderr(std::process::Stdio::inherit());\n        }\n", "        let messages = if self.verbose {\n            std::process::Stdio::inherit()\n        } else {\n            std::process::Stdio::piped()\n        };\n        command.stderr(messages);\n"))
c("x3-verbose-match", None, (CMD, "        if self.verbose {\n            command.stderr(std::process::Stdio::inherit());\n        }\n", "        command.stderr(match self.verbose {\n            true => std::process::Stdio::inherit(),\n            false => std::process::Stdio::piped(),\n        });\n"))
c("mu-de-metadata", "C28", (D, '"metadata" => workspace_metadata =', '"metadatx" => workspace_metadata ='))
c("mu-ser-resolve", "C30", (SER, "    entries!(map, self, nodes, root);\n", ""))
c("mu-ser-kind", "C30", (SER, "    entries!(map, self, kind, target);\n", ""))
c("mu-de-rv", "C28", (D, "                    rust_version = Some(tri!(deserialize_rust_version(s)));\n", "                    let _: semver::Version = tri!(deserialize_rust_version(s));\n"))
c("mu-de-rv2", "C28", (D, "                    rust_version = Some(tri!(deserialize_rust_version(s)));\n", ""))
c("mu-de-pad", "C28", (D, '        buf.push_str(".0");\n', ""))
c("mu-id-tail", "C22", (L, "                                    decoded.push_str(encoded);\n                                    break;", "                                    break;"))
c("mu-id-insert", "C22", (L, "                                decoded.push(c);", "                                decoded.insert(0, c);"))
c("mu-id-dropped", "C22", (L, "                            repr.push_str(&decoded);\n", ""))
c("mu-id-before", "C22", (L, "                                decoded.push_str(&encoded[..pi]);\n", ""))
