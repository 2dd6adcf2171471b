"""Graph construction: order of the crate nodes, sorted lists, resolved declarations (C10, C11, C14)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model, bases
from .edges import recorded
from .safety import calls
from .links import crate_at, owner_entry, source_is, positions

X, K = mk("sym", "$x"), mk("sym", "$k")
RAWN = "raw_nodes"


# --------------------------------------------------------------------------- C11
def sorted_by(g, ev, v, key):
    """(verdict, why): is v sorted by key.  None: not known"""
    if v.op == "choice":
        out = [sorted_by(g, ev, x, key) for x, n in alts(v) if b_and(n, ev.guard())]
        for r in (False, None, True):
            for o in out:
                if o[0] is r:
                    return o
        return True, ""
    if v.op == "sorted":
        if v.a[1] is subst(key, {X: K}):
            return True, "sorted"
        return False, "it is sorted by %s but searched by %s" % (show(v.a[1], 4), show(key, 4))
    if v.op == "slice":
        return sorted_by(g, ev, v.a[0], key)
    if v.op == "coll":
        if not v.a[1]:
            return True, "empty"
        if len(v.a[1]) != 1 or v.a[1][0].op != "piece":
            # one of several lists, whichever applies
            whole = [p for p in v.a[1] if p.op == "piece" and len(p.a[0]) == 1 and p.a[1] > 1 and not mentions(B(p.a[1]), set(p.a[0]))]
            if len(whole) == len(v.a[1]) and not any(b_and(p.a[1], q.a[1]) for i, p in enumerate(whole) for q in whole[:i]):
                out = [sorted_by(g, ev, coll(v.a[0], [piece(p.a[0], 1, p.a[2])]), key) for p in whole]
                for r in (False, None, True):
                    for o in out:
                        if o[0] is r:
                            return o
            return None, "the list has several parts"
        es, n, x = v.a[1][0].a
        if not es:
            return True, "a single element"
        if len(es) != 1:
            return None, "the list is nested"
        s = es[0].a[0]
        kx = subst(key, {X: x})
        if s.op == "sorted":
            if kx is subst(s.a[1], {K: es[0]}):
                return True, "sorted"
            return False, "it is sorted by %s but searched by %s" % (show(s.a[1], 4), show(key, 4))
        if kx is field(es[0], "0") and s.op in ("fold", "mapext", "mapadd", "put", "phi"):
            return None, "the entries of a map"
        if s.op in ("field", "proj", "sym"):
            return False, "it is in the order of %s" % show(s, 4)
        return None, "the order of the list is not known"
    if v.op == "proj" and v.a[0].op == "get":
        return grown_sorted(g, v.a[0].a[0], key)
    if v.op in ("field", "sym"):
        return False, "it is in the order it came in"
    return None, "the order of the list is not known"


def grown_sorted(g, m, key):
    """are all lists in a map only ever grown at the position a search by the key gives"""
    roots = {(b.a[0], b.a[1]) for b in bases(m) if b.op == "phi"}
    if m.op == "fold":
        b = m.a[3]
        roots = {(b.a[0], b.a[1])} if b.op == "phi" else roots
    if len(roots) != 1:
        return None, "how the list grows is not known"
    root = roots.pop()
    n = 0
    for e in g.ev:
        if e.kind not in ("mutate", "write", "call") or not e.args or not e.guard():
            continue
        if not any((b.a[0], b.a[1]) == root for b in bases(e.args[0]) if b.op == "phi") or e.kind == "call" and not (e.places and e.places[0]):
            continue
        if e.name == "entry_insert":
            for x, c in alts(e.args[2]):
                if not (x.op == "coll" and not x.a[1] or x.op == "proj" and x.a[0].op == "get"):
                    return None, "how the list starts is not known"
        elif e.name == "insert_sorted":
            n += 1
            k = [s for s in g.ev if s.kind == "bsearch" and s.args[0] is e.args[0]]
            if not k or any(s.args[1] is not key for s in k):
                return False, "elements are inserted at a position found by another key"
            # what is inserted has the key that was searched for
            if any(subst(key, {X: e.args[2]}) is not s.args[2] for s in k):
                return False, "an element is inserted at the position of another key"
        elif e.name in ("push", "extend", "insert", "append"):
            return False, "elements are added at the end"
        else:
            return None, "the list is changed by %s" % e.name
    return (True, "grown in order") if n else (None, "how the list grows is not known")


@rule("C11")
def searched(a, rep):
    g = model(a)
    k = 0
    seen = {}
    for e in g.ev:
        if e.kind != "bsearch" or not e.guard():
            continue
        k += 1
        what = subject(g, e)
        if e.args[1].op == "badcmp":
            c = e.args[1].a[0]
            xs = frozenset([X])
            if c.op == "cmp" and mentions(c.a[1], xs) and not mentions(c.a[0], xs):
                rep.bad("search-order", what, "the comparison of the search is the wrong way round: %s" % show(c, 4))
            else:
                rep.unk("search-order", what, "the comparison of the search was not recognised")
            continue
        okk, why = sorted_by(g, e, e.args[0], e.args[1])
        (rep.ok if okk else rep.bad if okk is False else rep.unk)("sorted", what, why)
    rep.check(k > 0, "sorted", "binary searches", "no binary search was found")


@rule("C11")
def searched_elsewhere(a, rep):
    """lists that other functions search: those that come from the metadata are in no particular order"""
    c = calls(a)
    inside = c.reach([b["did"] for b in a.p.bodies if b.get("name") == "build_with_metadata"])
    n = 0
    for b in a.p.bodies:
        if b["did"] in inside or b["kind"] == "Closure" or "{closure" in b["path"]:
            continue
        if not any(re.search(r"binary_search|partition_point", p) for p, _, _ in c.calls[b["did"]]):
            continue
        n += 1
        try:
            r = a.run(b)
        except Undecided as ex:
            rep.unk("sorted", b["path"], str(ex))
            continue
        for e in r.evs("bsearch"):
            v = e.args[0]
            while v.op == "slice":
                v = v.a[0]
            if v.op == "field" and norm_ty(b.get("self") or "").startswith("cm::"):
                rep.bad("sorted", b["path"], "%s is searched, but it is in the order it came in" % show(v, 4))
            elif v.op == "sorted" and v.a[1] is not subst(e.args[1], {X: K}):
                rep.bad("sorted", b["path"], "it is sorted by %s but searched by %s" % (show(v.a[1], 4), show(e.args[1], 4)))
            elif v.op == "sorted":
                rep.ok("sorted", b["path"])
            elif mentions(v, {mk("call", RAWN, field(sym(0), a.field_by_type("Krates", r"petgraph::(\w+::)*Graph")))}):
                rep.ok("sorted", b["path"], "the crate nodes (C10)")
            else:
                rep.unk("sorted", b["path"], "the order of %s is not known" % show(v, 4))
    rep.ok("sorted", "other functions", "%d search" % n)


def subject(g, e):
    """a stable name of the list that is searched"""
    s = []
    for nm, f in (("packages", g.packages), ("workspace members", g.members)):
        walk(e.args[0], lambda y: s.append(nm) if y is f else None)
    if "workspace members" in s and "packages" not in s:
        return "workspace members"
    if e.args[0].op in ("proj", "choice"):
        return "renames"
    if e.args[0].op == "sorted":
        return "features"
    if "packages" in s and e.args[1] is field(X, "0"):
        return "packages"
    return "resolve nodes"


# --------------------------------------------------------------------------- C10
def graph_parts(v):
    """what a graph is built up from: the innermost value, and the loops that extend it"""
    folds = []
    while True:
        if v.op == "fold":
            folds.append(v)
            v = v.a[5]
        elif v.op == "coll" and v.a[1] and is_ident(v.a[1][0]):
            v = v.a[1][0].a[0][0].a[0]
        else:
            return v, folds


def is_ident(p):
    return t.is_ident_piece(p)


@rule("C10")
def crate_nodes_first(a, rep):
    g = model(a)
    site = "build_with_metadata"
    gf = a.field_by_type("Krates", r"petgraph::(\w+::)*Graph")
    ef = a.field_by_type("Krates", r"^usize$")
    okv = proj(g.r.v, RES, "Ok", "0")
    graph, end = field(okv, gf), field(okv, ef)
    adds = [e for e in g.ev if e.kind == "mutate" and e.name == "add_node" and e.guard()]
    ck = [e for e in adds if any(w.op == "V" and w.a[1] == "Krate" for w, _ in alts(e.args[1]))]
    if len(ck) != 1:
        rep.unk("crate-nodes", site, "no single place where crate nodes are added")
        return
    c = ck[0]
    # the crate nodes: one per package, in the order of the ids
    els = [x for f in c.frames for x in f.elems or ()]
    w = c.args[1]
    if len(els) != 1 or any(f.kind != "for" for f in c.frames) or w.op != "V":
        rep.unk("sorted-nodes", site, "the loop that adds the crate nodes was not recognised")
        return
    el = els[0]
    idv = dict(zip(w.a[2], w.a[3:])).get("id")
    src = el.a[0]
    if src.op == "sorted":
        if idv is subst(src.a[1], {K: el}):
            rep.ok("sorted-nodes", site)
        else:
            rep.bad("sorted-nodes", site, "the packages are sorted by %s but the id of the node is %s" % (show(src.a[1], 4), show(idv, 4)))
    elif src is g.packages:
        rep.bad("sorted-nodes", site, "the crate nodes are in the order of the packages of the metadata")
    elif idv is field(el, "0") and any(b.op == "phi" for b in bases(src)):
        rep.ok("sorted-nodes", site, "in the order of a map keyed by id")
    else:
        rep.unk("sorted-nodes", site, "the order of %s is not known" % show(src, 4))
    nkey = field(el, "id")
    if src.op == "sorted":
        expect(rep, "node-id", site, idv, mk("conv", "Kid", nkey))
    # nothing but crate nodes is there before, only feature nodes come after
    start, _ = graph_parts(graph)
    if start.op != "coll" or start.a[0] != "graph":
        rep.unk("crates-first", site, "how the graph starts was not recognised")
    else:
        bad = [p for p in start.a[1] if not (p.a[2].op == "V" and p.a[2].a[1] == "node" and p.a[2].a[3].op == "V" and p.a[2].a[3].a[1] == "Krate")]
        nodes = [p for p in start.a[1] if p not in bad]
        if [p for p in bad if p.a[2].op == "V" and p.a[2].a[1] == "node"] or len(nodes) != 1:
            rep.bad("crates-first", site, "the graph does not start with exactly the crate nodes")
        else:
            rep.ok("crates-first", site)
        for e in adds:
            if e is c:
                continue
            vs = {x.a[1] if x.op == "V" else "?" for x, _ in alts(e.args[1])}
            if e.seq < c.seq:
                rep.bad("crates-first", site, "nodes are added before the crate nodes")
            elif vs == {"Feature"}:
                rep.ok("features-after", site)
            else:
                (rep.unk if "?" in vs else rep.bad)("features-after", site, "a node is added after the crate nodes that is not a feature")
        # the recorded end of the crates
        count = length(mk("call", RAWN, start))
        if same(end, count):
            rep.ok("crate-range", site)
        elif end.op == "len" and any(b.op == "phi" and b.a[1] == g.kept_root for b in bases(end.a[0])) or end.op == "count" and not taints(end):
            rep.ok("crate-range", site, "the number of kept crates")
        elif end.op in ("len", "lin") and not taints(end, ("phi", "fold")) or end.op == "len" and end.a[0].op == "call" and end.a[0].a[0] == RAWN:
            rep.bad("crate-range", site, "the recorded number of crates is %s" % show(end, 6))
        else:
            rep.unk("crate-range", site, "the recorded number of crates was not recognised: %s" % show(end, 5))
    # the nodes are not removed, reordered or re-identified afterwards
    root = {(b.a[1]) for b in bases(c.args[0]) if b.op == "phi"}
    for e in g.ev:
        if e is c or not e.guard() or not e.places:
            continue
        p = e.places[0]
        if not p or p[0] not in root:
            continue
        if e.kind == "mutate" and e.name in ("add_node", "add_edge") and not p[1]:
            continue
        fs = [x[3] for x in p[1] if isinstance(x, tuple) and x[0] == "p" and x[2] == "Krate"]
        if fs and fs[0] not in ("id",):
            rep.ok("nodes-stay", site)
        elif e.kind == "mutate" or e.name == "assign":
            rep.bad("nodes-stay", site, "the nodes are changed by %s" % e.name)


# --------------------------------------------------------------------------- C14
@rule("C14")
def mapping_filled(a, rep):
    g = model(a)
    site = "build_with_metadata"
    dm = [f["n"] for v in a.adt("Node")["v"] if v["n"] == "Krate" for f in v["f"] if re_opt(f["ty"])]
    if len(dm) != 1:
        raise Undecided("Node::Krate", "the list of resolved declarations was not found")
    dm = dm[0]
    c = [e for e in g.ev if e.kind == "mutate" and e.name == "add_node" and e.guard() and any(w.op == "V" and w.a[1] == "Krate" for w, _ in alts(e.args[1]))]
    if len(c) != 1:
        raise Undecided(site, "no single place where crate nodes are added")
    w = c[0].args[1]
    v = dict(zip(w.a[2], w.a[3:])).get(dm)
    el = [x for f in c[0].frames for x in f.elems or ()][-1]
    decls = field(el, "dependencies")
    expect(rep, "initially-empty", site, rebind(v), coll("vec", [piece((elem(decls),), 1, NONE)]), norm=rebind)
    # the entries that are filled in
    ws = []
    for e in g.ev:
        if not e.guard() or not e.places or not e.places[0] or not (e.name == "assign" or e.kind == "mutate"):
            continue
        path = e.places[0][1]
        k = [i for i, x in enumerate(path) if isinstance(x, tuple) and x[0] == "p" and x[2] == "Krate" and x[3] == dm]
        if k:
            ws.append((e, path, k[0]))
    if len(ws) != 1:
        (rep.bad if not ws else rep.unk)("filled", site, "no single place fills in what a declaration was resolved to")
        return
    e, path, k = ws[0]
    if len(path) != k + 2 or e.name != "assign" or path[k + 1][0] != "i" or k != 1 or path[0][0] != "i":
        rep.unk("filled", site, "how an entry is filled in was not recognised")
        return
    src, slot, val = path[0][1], path[k + 1][1], e.args[0]
    D, key = owner_entry(g, e)
    if D is None:
        rep.unk("filled", site, "the loop over the dependencies was not recognised")
        return
    d0 = recorded(g)[0]
    idf = [f for f in d0.f if d0.f[f].op == "idx"]
    if len(idf) != 1:
        rep.unk("filled", site, "no recorded index of the declaration")
        return
    for i, d in enumerate(recorded(g)):
        s2 = "recorded dependency %d" % (i + 1)
        x = d.f.get(idf[0])
        p = x.a[0] if x is not None and x.op == "idx" else None
        gen = p.a[0][0] if p is not None and p.op == "fst" and len(p.a[0]) == 1 else p
        if gen is None or gen.op != "elem" or not (gen.a[0].op == "field" and gen.a[0].a[1] == "dependencies"):
            rep.unk("declaration-index", s2, "the index is not a position in the list of declarations")
        elif not is_pkg(g, gen.a[0].a[0]):
            rep.bad("declaration-index", s2, "the index is a position in %s" % show(gen.a[0], 4))
        else:
            rep.ok("declaration-index", s2)
    E = slot.a[0] if slot.op == "field" else None
    if E is None or E.op != "elem":
        (rep.unk if taints(slot) else rep.bad)("filled-slot", site, "the entry with index %s is filled in" % show(slot, 5))
        return
    if slot.a[1] != idf[0]:
        rep.bad("filled-slot", site, "the entry with index %s is filled in" % show(slot, 5))
    elif not (E.a[0].op == "field" and E.a[0].a[0] is field(D, "1")):
        rep.unk("filled-slot", site, "the list of recorded edges was not recognised")
    else:
        rep.ok("filled-slot", site)
    if source_is(g, src, key):
        rep.ok("filled-crate", site)
    else:
        (rep.unk if taints(src, ("phi", "fold")) else rep.bad)("filled-crate", site, "the entry of %s is filled in" % show(src, 5))
    tg = some_val(val)
    who = crate_at(tg)
    if not implies(e.guard(), some_node(val)):
        rep.bad("filled-target", site, "an entry can be emptied again")
    elif who is field(D, "0"):
        rep.ok("filled-target", site)
    else:
        (rep.unk if who is None and taints(tg, ("phi", "fold")) else rep.bad)("filled-target", site, "the declaration is answered with %s" % show(tg if who is None else who, 5))
    # every recorded edge whose target is in the graph fills its entry
    bad = []
    for at in atoms_in(e.guard()):
        if not (mentions(at, {E}) or mentions(at, {D})):
            continue
        if at.op == "exists" and len(at.a[0]) == 1 and crate_at(mk("idx", pick("fst", at.a[0], at.a[1], at.a[0][0]))) is field(D, "0") and implies(e.guard(), atom(at)):
            continue
        if at.op == "is" and at.a[0].op == "at" and at.a[0].a[1] is src and at.a[2] == "Krate" and implies(e.guard(), atom(at)):
            # the node of the crate is a crate: nothing else can be there
            continue
        bad.append(at)
    if not bad:
        rep.ok("filled-always", site)
    elif any(taints(at, ("phi", "fold")) for at in bad):
        rep.unk("filled-always", site, "a condition was not recognised: %s" % show(bad[0], 6))
    else:
        rep.bad("filled-always", site, "whether the entry is filled in depends on %s" % show(bad[0], 7))


def re_opt(ty):
    import re
    return re.search(r"Vec<.*Option<", ty)


def is_pkg(g, x):
    """the package of the crate at hand"""
    x = g.norm(B(as_node(B(eq(mk("probe", x), mk("probe0"))))))
    p = g.norm(B(as_node(B(eq(mk("probe", g.pkg), mk("probe0"))))))
    return x is p
