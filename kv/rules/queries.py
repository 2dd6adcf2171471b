"""Graph queries: C14, C19, C20"""
from ..ctx import rule
from ..lib import *

OPQ = [r"^<Kid as"]


class G:
    """the roles of the fields of Krates, found by type"""

    def __init__(self, a):
        self.graph = field(sym(0), a.field_by_type("Krates", r"petgraph::(\w+::)*Graph"))
        self.members = field(sym(0), a.field_by_type("Krates", r"Vec<Kid>"))
        self.end = field(sym(0), a.field_by_type("Krates", r"^usize$"))
        self.root = field(sym(0), a.field_by_type("Krates", r"Utf8PathBuf"))
        self.raw = mk("call", "raw_nodes", self.graph)
        self.prefix = slice_(self.raw, I(0), self.end)
        self.N = elem(self.prefix)
        self.W = field(self.N, "weight")

    def norm(self, v):
        """nodes of the crate prefix are crates, and all crates are there (C10)"""
        for _ in range(6):
            m = {}

            def f(x):
                if x.op in ("piece", "exists", "count", "fst", "lst"):
                    for e in x.a[0]:
                        if e.a[0] is self.raw and implies(x.a[1], iskrate(field(e, "weight"))):
                            s = {e: elem(self.prefix, e.a[1])}
                            es = tuple(s.get(y, y) for y in x.a[0])
                            n = subst_node(x.a[1], s)
                            if x.op == "exists":
                                m[x] = B(exists(es, n))
                            elif x.op == "count":
                                m[x] = mk("count", es, n)
                            else:
                                m[x] = mk(x.op, es, n, subst(x.a[2], s))
                elif x.op == "is" and x.a[0].op == "field" and x.a[0].a[1] == "weight":
                    y = x.a[0].a[0]
                    src = y.a[0] if y.op == "elem" else y.a[2].a[0] if y.op in ("fst", "lst") and y.a[2].op == "elem" else None
                    if src is self.prefix:
                        m[x] = B(1 if x.a[2] == "Krate" else 0)
            walk(v, f)
            if not m:
                break
            v = subst(v, m)
        return v


def krate(w, f):
    return proj(w, "Node", "Krate", f)


def iskrate(w):
    return is_node(w, "Node", "Krate")


@rule("C19")
def by_name(a, rep):
    g = G(a)
    for name, extra in (("krates_by_name", False), ("search_matches", True)):
        b = a.method("Krates", name)
        r = a.run(b, opaque=OPQ)
        k = krate(g.W, "krate")
        cond = b_and(iskrate(g.W), as_node(B(eq(sym(1), mk("call", "name", k)))))
        if extra:
            cond = b_and(cond, atom(mk("call", "semver_matches", sym(2), mk("call", "version", k))))
        km = V("KrateMatch", "KrateMatch", ("krate", "kid", "node_id"), k, krate(g.W, "id"), mk("idx", g.N))
        expect(rep, "result-set", name, r.v, coll("vec", [piece((g.N,), cond, km)]), norm=g.norm)
    for f in ("name", "version"):
        r = a.run(a.method("cm::Package", f, trait="KrateDetails"))
        expect(rep, "details", "Package::" + f, r.v, field(sym(0), f))


DIR = "petgraph::Direction"


def edges(g, n, d):
    return mk("call", "edges_directed", g, n, V(DIR, d))


def lookup(g, kid):
    """(found, node element) of the crate node with the given id"""
    cond = as_node(B(eq(krate(g.W, "id"), kid)))
    return exists((g.N,), cond), pick("fst", (g.N,), cond, g.N)


@rule("C20")
def enumerations(a, rep):
    g = G(a)
    expect(rep, "crate-data", "krates", a.run(a.method("Krates", "krates"), opaque=OPQ).v,
           coll("vec", [piece((g.N,), iskrate(g.W), krate(g.W, "krate"))]), norm=g.norm)
    m = elem(g.members)
    fnd, nd = lookup(g, m)
    expect(rep, "members", "workspace_members", a.run(a.method("Krates", "workspace_members"), opaque=OPQ).v,
           coll("vec", [piece((m,), fnd, field(nd, "weight"))]), norm=g.norm)
    expect(rep, "crate-count", "len", a.run(a.method("Krates", "len")).v, g.end)
    expect(rep, "graph", "graph", a.run(a.method("Krates", "graph")).v, g.graph)
    expect(rep, "root-path", "workspace_root", a.run(a.method("Krates", "workspace_root")).v, g.root)
    e = elem(edges(g.graph, sym(1), "Outgoing"))
    expect(rep, "dependency-edges", "get_deps", a.run(a.method("Krates", "get_deps"), opaque=OPQ).v,
           coll("vec", [piece((e,), 1, mk("tup", index_at(g.graph, mk("call", "target", e)), mk("call", "weight", e)))]), norm=g.norm)


@rule("C20")
def lookups(a, rep):
    g = G(a)
    fnd, nd = lookup(g, sym(1))
    w = field(nd, "weight")
    expect(rep, "node-of-id", "node_for_kid", a.run(a.method("Krates", "node_for_kid"), opaque=OPQ).v,
           ite(fnd, some(w), NONE), norm=g.norm)
    expect(rep, "features-of-id", "get_enabled_features", a.run(a.method("Krates", "get_enabled_features"), opaque=OPQ).v,
           ite(fnd, some(krate(w, "features")), NONE), norm=g.norm)
    nid = mk("idx", nd)
    e = elem(edges(g.graph, nid, "Incoming"))
    src = mk("call", "source", e)
    fw = index_at(g.graph, src)
    feat = some_val(sym(2))
    cond = b_and(is_node(fw, "Node", "Feature"), as_node(B(eq(nid, proj(fw, "Node", "Feature", "krate_index")))),
                 as_node(B(eq(feat, proj(fw, "Node", "Feature", "name")))))
    fe = pick("fst", (e,), cond, e)
    fs = mk("call", "source", fe)
    want = ite(fnd, ite(some_node(sym(2)),
                        ite(exists((e,), cond), some(mk("tup", fs, index_at(g.graph, fs))), NONE),
                        some(mk("tup", nid, w))), NONE)
    expect(rep, "feature-node", "get_node", a.run(a.method("Krates", "get_node"), opaque=OPQ).v, want, norm=g.norm)
    idx = a.methods("Krates", "index", trait="ops::Index")
    if len(idx) != 2:
        rep.bad("anchor", "Krates::index", "expected two Index implementations, found %d" % len(idx))
    for b in idx:
        nat = "usize" in (b.get("itraitfull") or "")
        r = a.run(b)
        n = index_at(g.graph, sym(1))
        alt = krate(n, "krate")
        expect(rep, "index", "by usize" if nat else "by node id", r.v, alt, norm=g.norm)


@rule("C10")
def lookup_by_id(a, rep):
    g = G(a)
    fnd, nd = lookup(g, sym(1))
    r = a.run(a.method("Krates", "nid_for_kid"), opaque=OPQ)
    expect(rep, "id-lookup", "nid_for_kid", r.v, ite(fnd, some(mk("idx", nd)), NONE), norm=g.norm)
    # a binary search only finds what is sorted by the key it compares
    for ev in r.evs("bsearch"):
        key = ev.args[1]
        expect(rep, "id-lookup-key", "nid_for_kid", key, krate(field(mk("sym", "$x"), "weight"), "id"))


@rule("C14")
def resolved(a, rep):
    g = G(a)
    r = a.run(a.method("Krates", "resolved_dependency"), opaque=OPQ)
    n = index_at(g.graph, sym(1))
    dm = krate(n, "dep_mapping")
    slot = index_at(dm, sym(2))
    tgt = index_at(g.graph, some_val(slot))
    ok_ = b_and(lt(sym(1), g.end), iskrate(n), lt(sym(2), length(dm)), some_node(slot), iskrate(tgt))
    # what building establishes (C10): the nodes before krates_end are there and are exactly the crates
    e, there = lt(sym(1), g.end), lt(sym(1), length(g.raw))
    facts = b_and(b_imp(e, there), b_imp(there, b_xnor(iskrate(n), e)))
    expect(rep, "lookup", "resolved_dependency", r.v, ite(ok_, some(krate(tgt, "krate")), NONE), care=facts, norm=g.norm)
    for ev in r.evs("panic", "unwrap", "index"):
        if ev.kind == "panic" and ev.guard() != 0:
            rep.bad("no-panic", "resolved_dependency", "a panic is reachable: %s" % ev)
        elif ev.kind in ("unwrap", "index"):
            rep.bad("no-panic", "resolved_dependency", "an unchecked access: %s" % ev)
    rep.ok("no-panic", "resolved_dependency")
