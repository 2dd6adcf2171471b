// A small builder for cargo metadata.
#![allow(dead_code)]
use serde_json::{json, Map, Value};

pub struct Md { pub pkgs: Vec<Value>, pub nodes: Vec<Value>, pub members: Vec<String>, pub root: Value }

pub fn id(name: &str, ver: &str) -> String { format!("path+file:///w/{name}#{name}@{ver}") }
pub const INDEX: &str = "registry+https://github.com/rust-lang/crates.io-index";
pub fn rid(name: &str, ver: &str) -> String { format!("{INDEX}#{name}@{ver}") }

/// a declared dependency: name, requirement
pub fn dep(name: &str, req: &str) -> Value {
    json!({"name": name, "source": null, "req": req, "kind": null, "rename": null, "optional": false,
           "uses_default_features": true, "features": [], "target": null, "registry": null})
}
pub fn with(mut v: Value, kvs: &[(&str, Value)]) -> Value {
    for (k, x) in kvs { v.as_object_mut().unwrap().insert((*k).to_owned(), x.clone()); }
    v
}
pub fn pkg(name: &str, ver: &str, id: &str, deps: Vec<Value>, features: Value) -> Value {
    let source = if id.starts_with("path+") { Value::Null } else { Value::from(id.split('#').next().unwrap()) };
    json!({"name": name, "version": ver, "id": id, "license": null, "license_file": null, "description": null,
        "source": source, "dependencies": deps,
        "targets": [{"kind": ["lib"], "crate_types": ["lib"], "name": name.replace('-', "_"),
                     "src_path": format!("/w/{name}/src/lib.rs"), "edition": "2021", "doc": true, "doctest": true, "test": true}],
        "features": features, "manifest_path": format!("/w/{name}/Cargo.toml"), "metadata": null, "publish": null,
        "authors": [], "categories": [], "keywords": [], "readme": null, "repository": null, "homepage": null,
        "documentation": null, "edition": "2021", "links": null, "default_run": null, "rust_version": null})
}
/// a resolved dependency
pub fn rdep(name: &str, id: &str, kinds: &[(Option<&str>, Option<&str>)]) -> Value {
    let k: Vec<Value> = kinds.iter().map(|(k, t)| json!({"kind": k, "target": t})).collect();
    json!({"name": name, "pkg": id, "dep_kinds": k})
}
pub const N: &[(Option<&str>, Option<&str>)] = &[(None, None)];
pub fn none() -> Value { Value::Object(Map::new()) }

impl Md {
    pub fn new() -> Self { Md { pkgs: vec![], nodes: vec![], members: vec![], root: Value::Null } }
    pub fn add(&mut self, p: Value, rdeps: Vec<Value>, features: &[&str]) -> &mut Self {
        let i = p["id"].clone();
        let d: Vec<Value> = rdeps.iter().map(|d| d["pkg"].clone()).collect();
        self.nodes.push(json!({"id": i, "dependencies": d, "deps": rdeps, "features": features}));
        self.pkgs.push(p);
        self
    }
    pub fn member(&mut self, id: &str) -> &mut Self { self.members.push(id.to_owned()); self }
    pub fn json(&self) -> Value {
        json!({"packages": self.pkgs, "workspace_members": self.members, "workspace_default_members": self.members,
            "resolve": {"nodes": self.nodes, "root": self.root}, "target_directory": "/w/target", "version": 1,
            "workspace_root": "/w", "metadata": null})
    }
    pub fn metadata(&self) -> krates::cm::Metadata { serde_json::from_value(self.json()).unwrap() }
}
pub fn build(b: krates::Builder, m: &Md) -> krates::Krates { b.build_with_metadata(m.metadata(), |_: krates::cm::Package| {}).unwrap() }
pub fn names(k: &krates::Krates) -> Vec<String> { k.krates().map(|p| p.name.clone()).collect() }
pub fn kid(s: &str) -> krates::Kid { krates::Kid::from(krates::cm::PackageId { repr: s.to_owned() }) }
/// the features enabled on a crate, sorted
pub fn feats(k: &krates::Krates, id: &str) -> Vec<String> {
    let mut v: Vec<String> = k.get_enabled_features(&kid(id)).map(|s| s.iter().cloned().collect()).unwrap_or_default();
    v.sort();
    v
}
/// edges as text: from -> to (kind, cfg)
pub fn edges(k: &krates::Krates) -> Vec<String> {
    use krates::petgraph::visit::EdgeRef;
    let g = k.graph();
    let n = |i: krates::NodeId| match &g[i] {
        krates::Node::Krate { krate, .. } => format!("{}@{}", krate.name, krate.version),
        krates::Node::Feature { krate_index, name } => match &g[*krate_index] {
            krates::Node::Krate { krate, .. } => format!("{}/{}", krate.name, name),
            _ => "?".to_owned(),
        },
    };
    let mut v: Vec<String> = g.edge_references().map(|e| format!("{} -> {} {:?}", n(e.source()), n(e.target()), e.weight())).collect();
    v.sort();
    v
}
