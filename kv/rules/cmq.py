"""Helper queries of the metadata types: C32"""
from ..ctx import rule
from .. import terms as t
from ..lib import *

KINDS = {"is_lib": "Lib", "is_bin": "Bin", "is_example": "Example", "is_test": "Test", "is_bench": "Bench",
         "is_custom_build": "CustomBuild", "is_proc_macro": "ProcMacro"}


@rule("C32")
def helpers(a, rep):
    me = sym(0)
    pk = field(me, "packages")
    e = elem(pk)

    def unique(v):
        """package ids are unique: the last package with an id is the first one"""
        m = {}

        def f(x):
            if x.op == "lst" and len(x.a[0]) == 1 and x.a[0][0].a[0] is pk and x.a[1] > 1:
                i = field(x.a[0][0], "id")
                if any(y.op == "eq" and i in y.a[:2] and implies(x.a[1], atom(y)) for y in [t._atoms[q] for q in support(x.a[1])]):
                    m[x] = pick("fst", x.a[0], x.a[1], x.a[2])
        walk(v, f)
        return subst(v, m) if m else v
    # root package
    r = a.run(a.method("cm::Metadata", "root_package"))
    res = field(me, "resolve")
    root = field(some_val(res), "root")
    byid = as_node(B(eq(field(e, "id"), some_val(root))))
    man = as_node(B(eq(field(e, "manifest_path"), mk("call", "join", field(me, "workspace_root"), S("Cargo.toml")))))

    def found(n):
        return ite(exists((e,), n), some(pick("fst", (e,), n, e)), NONE)
    want = ite(some_node(res), ite(some_node(root), found(byid), NONE), found(man))
    expect(rep, "root-package", "Metadata::root_package", r.v, want, norm=unique)
    no_panics(rep, "no-panic", "Metadata::root_package", r)
    # package lists
    r = a.run(a.method("cm::Metadata", "workspace_packages"))
    expect(rep, "member-packages", "Metadata::workspace_packages", r.v,
           coll("vec", [piece((e,), contains(field(me, "workspace_members"), field(e, "id")), e)]))
    dm = field(field(me, "workspace_default_members"), "0")
    r = a.run(a.method("cm::Metadata", "workspace_default_packages"))
    expect(rep, "default-packages", "Metadata::workspace_default_packages", r.v,
           coll("vec", [piece((e,), contains(some_val(dm), field(e, "id")), e)]), some_node(dm))
    expect_node(rep, "old-cargo", "Metadata::workspace_default_packages", panic_node(r), b_not(some_node(dm)))
    r = a.run(a.method("cm::WorkspaceDefaultMembers", "deref", trait="ops::Deref"))
    expect_node(rep, "old-cargo", "WorkspaceDefaultMembers::deref", panic_node(r), b_not(some_node(field(me, "0"))))
    expect(rep, "default-members", "WorkspaceDefaultMembers::deref", r.v, some_val(field(me, "0")), some_node(field(me, "0")))
    # indexing by id
    r = a.run(a.method("cm::Metadata", "index", trait=None, full=None) if a.methods("cm::Metadata", "index") else
              [b for b in a.p.bodies if b.get("name") == "index" and norm_ty(b.get("self") or "") == "cm::Metadata"][0])
    byid = as_node(B(eq(field(e, "id"), sym(1))))
    expect(rep, "index", "Metadata::index", r.v, pick("fst", (e,), byid, e), exists((e,), byid), norm=unique)
    expect_node(rep, "index-panics", "Metadata::index", panic_node(r), b_not(exists((e,), byid)))
    # paths
    mp = field(me, "manifest_path")
    par = mk("call", "parent", mp)
    base = ite(some_node(par), some_val(par), mp)
    for n in ("license_file", "readme"):
        f = field(me, n)
        r = a.run(a.method("cm::Package", n))
        want = ite(some_node(f), some(ite(some_node(par), mk("call", "join", some_val(par), some_val(f)), mk("call", "join", mp, some_val(f)))), NONE)
        expect(rep, "path", "Package::" + n, r.v, want)
    # target predicates
    k = elem(field(me, "kind"))
    for n, var in KINDS.items():
        r = a.run(a.method("cm::Target", n))
        expect_node(rep, "target-kind", "Target::" + n, as_node(r.v), exists((k,), is_node(k, "cm::TargetKind", var)))
    r = a.run(a.method("cm::Source", "is_crates_io"))
    expect_node(rep, "crates-io", "Source::is_crates_io", as_node(r.v), eq(field(me, "repr"), S("registry+https://github.com/rust-lang/crates.io-index")))
    # ids and sources are shown as their text
    for ty in ("PackageId", "Source"):
        r = a.run(a.method("cm::" + ty, "fmt", trait="fmt::Display"))
        h = r.heap(1)
        txt = field(me, "repr")
        c = [x for x in r.evs("call") if x.name == "fmt"]
        w = mk("fmt", txt)
        pcs = h.a[1] if h.op == "coll" else ()
        okk = (len(c) == 1 and c[0].args[0] is txt and c[0].args[1] is sym(1) and len(r.evs("call")) == 1) or \
              (len(pcs) == 2 and pcs[1].a[1] == 1 and not pcs[1].a[0] and pcs[1].a[2] in (w, txt))
        if okk:
            rep.ok("display", ty)
        else:
            rep.unk("display", ty, "the shown text is %s" % show(h, 6))
