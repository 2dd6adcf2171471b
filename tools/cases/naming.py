B = "src/builder.rs"
EQ = """            krate.len() == human.len()
                && krate
                    .chars()
                    .zip(human.chars())
                    .all(|(a, b)| a == b || a == '_' && b == '-')
"""
LIB = """                let Some(targ) = pkg.targets.iter().find(|tar| {
                    tar.kind.iter().any(|kind| {
                        matches!(
                            kind,
                            cm::TargetKind::Lib
                                | cm::TargetKind::RLib
                                | cm::TargetKind::DyLib
                                | cm::TargetKind::CDyLib
                                | cm::TargetKind::StaticLib
                                | cm::TargetKind::ProcMacro
                        )
                    })
                }) else {
                    return;
                };

                if pkg_name_equals(&targ.name, &pkg.name) {
                    return;
                }

                let v = self.inner.entry(&pkg.name).or_default();

                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
                    v.insert(i, (&pkg.version, &targ.name));
                }
"""
RF = """                rnode.deps.iter().find(|rdep| {
                    if pkg_name_equals(&rdep.name, feature_krate_name) {
                        return true;
                    }

                    if feature_krate_name != rdep.pkg.name() {
                        return false;
                    }

                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
                        else {
                            return false;
                        };
                        renames[i].1 == rdep.name
                    })
                })
"""
DN = """                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
                                return false;
                            }

                            // Handle case where a dependency may not have a version requirement, which
                            // typically happens in the case of non-registry dependencies that use a pre-release
                            // semver, if the version _is_ a prelease it will never match the empty
                            // requirement
                            if !("""
MATCH = """            for resolved_name in [&dep.name, dep.pkg.name()] {
                if pkg_name_equals(resolved_name, krate_dep_name) {
                    return true;
                }
            }

            false
"""
CASES = [
    # refactors
    dict(n="nm-eq-any", p=None, e=[(B, EQ, """            if krate.len() != human.len() {
                return false;
            }
            !krate
                .chars()
                .zip(human.chars())
                .any(|(a, b)| a != b && !(a == '_' && b == '-'))
""")]),
    dict(n="nm-eq-for", p=None, e=[(B, EQ, """            if krate.len() != human.len() {
                return false;
            }
            for (k, h) in krate.chars().zip(human.chars()) {
                if k != h && (k, h) != ('_', '-') {
                    return false;
                }
            }
            true
""")]),
    dict(n="nm-eq-match", p=None, e=[(B, EQ, """            krate.len() == human.len()
                && krate.chars().zip(human.chars()).all(|pair| match pair {
                    ('_', '-') => true,
                    (a, b) => a == b,
                })
""")]),
    dict(n="nm-lib-fn", p=None, e=[(B, LIB, LIB.replace("""                let Some(targ) = pkg.targets.iter().find(|tar| {
                    tar.kind.iter().any(|kind| {
                        matches!(
                            kind,
                            cm::TargetKind::Lib
                                | cm::TargetKind::RLib
                                | cm::TargetKind::DyLib
                                | cm::TargetKind::CDyLib
                                | cm::TargetKind::StaticLib
                                | cm::TargetKind::ProcMacro
                        )
                    })
                }) else {
                    return;
                };
""", """                fn is_lib(kind: &cm::TargetKind) -> bool {
                    use cm::TargetKind::*;
                    matches!(kind, Lib | RLib | DyLib | CDyLib | StaticLib | ProcMacro)
                }
                let Some(targ) = pkg.targets.iter().find(|tar| tar.kind.iter().any(is_lib)) else {
                    return;
                };
"""))]),
    dict(n="nm-lib-iflet", p=None, e=[(B, LIB, LIB.replace("""                if pkg_name_equals(&targ.name, &pkg.name) {
                    return;
                }

                let v = self.inner.entry(&pkg.name).or_default();

                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
                    v.insert(i, (&pkg.version, &targ.name));
                }
""", """                if !pkg_name_equals(&targ.name, &pkg.name) {
                    let versions = self.inner.entry(&pkg.name).or_default();
                    match versions.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
                        Ok(_) => {}
                        Err(i) => versions.insert(i, (&pkg.version, &targ.name)),
                    }
                }
"""))]),
    dict(n="nm-lib-key", p=None, e=[(B, LIB, LIB.replace("v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version))", "v.binary_search_by_key(&&pkg.version, |(vs, _n)| vs)"))]),
    dict(n="nm-rf-expr", p=None, e=[(B, RF, """                rnode.deps.iter().find(|rdep| {
                    pkg_name_equals(&rdep.name, feature_krate_name)
                        || (feature_krate_name == rdep.pkg.name()
                            && self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
                                renames
                                    .binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
                                    .is_ok_and(|i| renames[i].1 == rdep.name)
                            }))
                })
""")]),
    dict(n="nm-rf-for", p=None, e=[(B, RF, """                for rdep in &rnode.deps {
                    if pkg_name_equals(&rdep.name, feature_krate_name) {
                        return Some(rdep);
                    }
                    if feature_krate_name != rdep.pkg.name() {
                        continue;
                    }
                    let Some(renames) = self.inner.get(rdep.pkg.name()) else {
                        continue;
                    };
                    if let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version)) {
                        if renames[i].1 == rdep.name {
                            return Some(rdep);
                        }
                    }
                }
                None
""")]),
    dict(n="nm-rf-helper", p=None, e=[(B, RF, """                rnode.deps.iter().find(|rdep| self.denotes(rdep, feature_krate_name))
            }

            fn denotes(&self, rdep: &NodeDep, feature_krate_name: &str) -> bool {
                if pkg_name_equals(&rdep.name, feature_krate_name) {
                    return true;
                }
                if feature_krate_name != rdep.pkg.name() {
                    return false;
                }
                let Some(renames) = self.inner.get(feature_krate_name) else {
                    return false;
                };
                match renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version)) {
                    Ok(i) => renames[i].1 == rdep.name,
                    Err(_) => false,
                }
""")]),
    dict(n="nm-rf-find-linear", p=None, e=[(B, RF, RF.replace("""                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
                        else {
                            return false;
                        };
                        renames[i].1 == rdep.name
""", """                        renames
                            .iter()
                            .find(|(vs, _n)| **vs == rdep.version)
                            .is_some_and(|(_, n)| *n == rdep.name)
"""))]),
    dict(n="nm-match-or", p=None, e=[(B, MATCH, """            pkg_name_equals(dep.pkg.name(), krate_dep_name)
                || pkg_name_equals(&dep.name, krate_dep_name)
""")]),
    # bugs
    dict(n="nm-B-eq-swap", p="C15", e=[(B, EQ, EQ.replace("a == '_' && b == '-'", "a == '-' && b == '_'"))]),
    dict(n="nm-B-eq-both", p="C15", e=[(B, EQ, EQ.replace("a == '_' && b == '-'", "a == '_' && b == '-' || a == '-' && b == '_'"))]),
    dict(n="nm-B-eq-nolen", p="C15", e=[(B, EQ, EQ.replace("""krate.len() == human.len()
                && krate""", """krate"""))]),
    dict(n="nm-B-eq-case", p="C15", e=[(B, EQ, EQ.replace("a == b ||", "a.eq_ignore_ascii_case(&b) ||"))]),
    dict(n="nm-B-eq-prefix", p="C15", e=[(B, EQ, EQ.replace("krate.len() == human.len()", "krate.len() <= human.len()"))]),
    dict(n="nm-B-lib-norlib", p="C15", e=[(B, LIB, LIB.replace("""                                | cm::TargetKind::RLib
""", ""))]),
    dict(n="nm-B-lib-bin", p="C15", e=[(B, LIB, LIB.replace("""                                | cm::TargetKind::RLib
""", """                                | cm::TargetKind::RLib
                                | cm::TargetKind::Bin
"""))]),
    dict(n="nm-B-lib-all", p="C15", e=[(B, LIB, LIB.replace("tar.kind.iter().any", "tar.kind.iter().all"))]),
    dict(n="nm-B-lib-first", p="C15", e=[(B, LIB, LIB.replace("let v = self.inner.entry(&pkg.name).or_default();", "let v = self.inner.entry(&targ.name).or_default();"))]),
    dict(n="nm-B-lib-one-version", p="C15", e=[(B, LIB, LIB.replace("if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {\n                    v.insert(i,", "if v.is_empty() {\n                    v.insert(0,"))]),
    dict(n="nm-B-lib-pkgname", p="C15", e=[(B, LIB, LIB.replace("v.insert(i, (&pkg.version, &targ.name))", "v.insert(i, (&pkg.version, &pkg.name))"))]),
    dict(n="nm-B-lib-order", p="C15", e=[(B, LIB, LIB.replace("vs.cmp(&&pkg.version)", "vs.cmp_precedence(&pkg.version)"))]),
    dict(n="nm-B-rf-noname", p="C15", e=[(B, RF, RF.replace("renames[i].1 == rdep.name", "renames[i].1 != feature_krate_name"))]),
    dict(n="nm-B-rf-noversion", p="C15", e=[(B, RF, RF.replace("""                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
                        else {
                            return false;
                        };
                        renames[i].1 == rdep.name
""", """                        renames[0].1 == rdep.name
"""))]),
    dict(n="nm-B-rf-pkgname", p="C15", e=[(B, RF, RF.replace("""                    if feature_krate_name != rdep.pkg.name() {
                        return false;
                    }
""", """                    if feature_krate_name == rdep.pkg.name() {
                        return true;
                    }
"""))]),
    dict(n="nm-B-rf-nocheck", p="C15", e=[(B, RF, RF.replace("""                    if feature_krate_name != rdep.pkg.name() {
                        return false;
                    }
""", ""))]),
    dict(n="nm-B-rf-exact", p="C15", e=[(B, RF, RF.replace("pkg_name_equals(&rdep.name, feature_krate_name)", "rdep.name == feature_krate_name"))]),
    dict(n="nm-B-rf-last", p="C15", e=[(B, RF, RF.replace("rnode.deps.iter().find(", "rnode.deps.iter().rfind("))]),
    dict(n="nm-B-match-name", p="C15", e=[(B, MATCH, "            pkg_name_equals(&dep.name, krate_dep_name)\n")]),
    dict(n="nm-B-match-prefix", p="C15", e=[(B, MATCH, MATCH.replace("if pkg_name_equals(resolved_name, krate_dep_name)", "if pkg_name_equals(resolved_name, krate_dep_name.trim_start_matches('_'))"))]),
    dict(n="nm-B-match-swap", p="C15", e=[(B, MATCH, MATCH.replace("pkg_name_equals(resolved_name, krate_dep_name)", "pkg_name_equals(krate_dep_name, resolved_name)"))]),
    dict(n="nm-B-decl-norename", p="C15", e=[(B, DN, DN.replace("dep.rename.as_deref().unwrap_or(&dep.name)", "dep.name.as_str()"))]),
]
