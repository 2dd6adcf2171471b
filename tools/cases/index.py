F = "src/builder/index.rs"
GUARD = """    if krate.source.as_ref().is_none_or(|src| !src.is_crates_io()) {
        return;
    }
"""
LOOP = """    for (ikey, ivalue) in features {
        if !krate.features.contains_key(ikey) {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }
    }
"""
FIND = """                ik.versions
                    .iter()
                    .find_map(|ikv| (&ikv.version == version).then_some(&ikv.features))"""
MISS = """    let missing_deps: Vec<_> = krate
        .features
        .values()
        .flat_map(|sf| sf.iter())
        .filter_map(|sf| {
            let pf = crate::ParsedFeature::from(sf.as_str());

            if let super::features::Feature::Simple(simple) = pf.feat() {
                if krate.features.contains_key(simple) {
                    None
                } else {
                    Some(simple.to_owned())
                }
            } else {
                None
            }
        })
        .collect();
"""
FILL = """    for missing in missing_deps {
        let dep_feature = format!("dep:{missing}");
        krate.features.insert(missing, vec![dep_feature]);
    }
"""
CASES = [
    dict(n="ix-guard-match", p=None, e=[(F, GUARD, """    match &krate.source {
        Some(src) if src.is_crates_io() => {}
        _ => return,
    }
""")]),
    dict(n="ix-entry", p=None, e=[(F, LOOP, """    for (ikey, ivalue) in features {
        krate.features.entry(ikey.clone()).or_insert_with(|| ivalue.clone());
    }
""")]),
    dict(n="ix-extend", p=None, e=[(F, LOOP, """    let additional: Vec<_> = features
        .iter()
        .filter(|(ikey, _)| !krate.features.contains_key(*ikey))
        .map(|(ikey, ivalue)| (ikey.clone(), ivalue.clone()))
        .collect();
    krate.features.extend(additional);
""")]),
    dict(n="ix-continue", p=None, e=[(F, LOOP, """    for (ikey, ivalue) in features {
        if krate.features.contains_key(ikey) {
            continue;
        }
        krate.features.insert(ikey.clone(), ivalue.clone());
    }
""")]),
    dict(n="ix-find", p=None, e=[(F, FIND, """                ik.versions
                    .iter()
                    .find(|ikv| &ikv.version == version)
                    .map(|ikv| &ikv.features)""")]),
    dict(n="ix-lookup-q", p=None, e=[(F, """        self.cache.get(name).and_then(|ik| {
            ik.as_ref().and_then(|ik| {
""" + FIND + """
            })
        })""", """        let ik = self.cache.get(name)?.as_ref()?;
        for ikv in &ik.versions {
            if ikv.version == *version {
                return Some(&ikv.features);
            }
        }
        None""")]),
    dict(n="ix-missing-loop", p=None, e=[(F, MISS, """    let mut missing_deps = Vec::new();
    for list in krate.features.values() {
        for sf in list {
            if let super::features::Feature::Simple(simple) = crate::ParsedFeature::from(sf.as_str()).feat() {
                if !krate.features.contains_key(simple) {
                    missing_deps.push(simple.to_owned());
                }
            }
        }
    }
""")]),
    dict(n="ix-missing-set", p=None, e=[(F, "let missing_deps: Vec<_>", "let missing_deps: BTreeSet<_>")]),
    dict(n="ix-missing-matches", p=None, e=[(F, """            if let super::features::Feature::Simple(simple) = pf.feat() {
                if krate.features.contains_key(simple) {
                    None
                } else {
                    Some(simple.to_owned())
                }
            } else {
                None
            }
""", """            let super::features::Feature::Simple(simple) = pf.feat() else {
                return None;
            };
            (!krate.features.contains_key(simple)).then(|| simple.to_owned())
""")]),
    dict(n="ix-fill-helper", p=None, e=[(F, FILL, """    for missing in missing_deps {
        let value = dep_feature(&missing);
        krate.features.insert(missing, value);
    }
"""), (F, "/// Correct features with index", """fn dep_feature(name: &str) -> Vec<String> {
    let mut s = String::from("dep:");
    s.push_str(name);
    vec![s]
}

/// Correct features with index""")]),
    dict(n="ix-fill-extend", p=None, e=[(F, FILL, """    krate.features.extend(missing_deps.into_iter().map(|missing| {
        let dep_feature = format!("dep:{missing}");
        (missing, vec![dep_feature])
    }));
""")]),
    dict(n="ix-letelse", p=None, e=[(F, """    let Some(features) = index.index_krate_features(&krate.name, &krate.version) else {
        return;
    };
""", """    let features = match index.index_krate_features(&krate.name, &krate.version) {
        Some(features) => features,
        None => return,
    };
""")]),
    # bugs
    dict(n="ixb-always", p="C34", e=[(F, GUARD, "")]),
    dict(n="ixb-nosource", p="C34", e=[(F, "is_none_or(", "is_some_and(")]),
    dict(n="ixb-overwrite", p="C34", e=[(F, "        if !krate.features.contains_key(ikey) {\n            krate.features.insert(ikey.clone(), ivalue.clone());\n        }\n", "        krate.features.insert(ikey.clone(), ivalue.clone());\n")]),
    dict(n="ixb-merge", p="C34", e=[(F, LOOP, """    for (ikey, ivalue) in features {
        let fs = krate.features.entry(ikey.clone()).or_default();
        if fs.is_empty() {
            *fs = ivalue.clone();
        }
    }
""")]),
    dict(n="ixb-append", p="C34", e=[(F, LOOP, """    for (ikey, ivalue) in features {
        if let Some(fs) = krate.features.get_mut(ikey) {
            for v in ivalue {
                if !fs.contains(v) {
                    fs.push(v.clone());
                }
            }
        } else {
            krate.features.insert(ikey.clone(), ivalue.clone());
        }
    }
""")]),
    dict(n="ixb-version-compat", p="C34", e=[(F, "(&ikv.version == version)", "(ikv.version.cmp_precedence(version).is_eq())")]),
    dict(n="ixb-version-ge", p="C34", e=[(F, "(&ikv.version == version)", "(&ikv.version >= version)")]),
    dict(n="ixb-last", p="C34", e=[(F, FIND, "                ik.versions.last().map(|ikv| &ikv.features)")]),
    dict(n="ixb-empty", p="C34", e=[(F, "ivalue.clone());", "Vec::new());")]),
    dict(n="ixb-skip-empty", p="C34", e=[(F, "if !krate.features.contains_key(ikey) {", "if !ivalue.is_empty() && !krate.features.contains_key(ikey) {")]),
    dict(n="ixb-default", p="C34", e=[(F, "if !krate.features.contains_key(ikey) {", "if ikey != \"default\" && !krate.features.contains_key(ikey) {")]),
    dict(n="ixb-dep-plain", p="C34", e=[(F, 'format!("dep:{missing}")', 'missing.clone()')]),
    dict(n="ixb-not-missing", p="C34", e=[(F, "if krate.features.contains_key(simple) {", "if features.contains_key(simple) {")]),
    dict(n="ixb-before", p="C34", e=[(F, LOOP, ""), (F, "    for missing in missing_deps", LOOP + "    for missing in missing_deps")]),
    dict(n="ixb-nofix", p="C34", e=[(F, FILL, "    let _ = missing_deps;\n")]),
    dict(n="ixb-early", p="C34", e=[(F, LOOP, LOOP + "    if krate.features.is_empty() {\n        return;\n    }\n    if features.is_empty() {\n        return;\n    }\n")]),
    dict(n="ixb-retain", p="C34", e=[(F, LOOP, LOOP + "    krate.features.retain(|k, _| features.contains_key(k));\n")]),
    dict(n="ixb-name-rename", p="C34", e=[(F, "&krate.name, &krate.version) else", "&krate.name.replace('_', \"-\"), &krate.version) else")]),
]
