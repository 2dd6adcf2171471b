"""Walks over the finished graph: direct dependencies, direct dependents, filtered crates (C16, C17, C18, C12)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .queries import G, OPQ, krate, iskrate, lookup, edges

POPS = ("pop", "pop_front", "pop_back", "pop_first", "pop_last")
PUSHES = ("push", "push_back", "push_front", "set_insert")


def base(x):
    """(root, loop) of the variable a value is a state of"""
    while True:
        if x.op == "phi":
            return x.a[1]
        if x.op == "coll" and len(x.a[1]) >= 1 and t.is_ident_piece(x.a[1][0]):
            x = x.a[1][0].a[0][0].a[0]
        elif x.op == "fold":
            x = x.a[3]
        elif x.op in ("put", "mapadd", "mapext", "poprest"):
            x = x.a[0]
        elif x.op == "coll" and len(x.a[1]) == 1 and len(x.a[1][0].a[0]) == 1 and x.a[1][0].a[0][0].a[0].op in ("phi", "fold", "mapadd", "mapext", "put"):
            x = x.a[1][0].a[0][0].a[0]
        else:
            return None


class Walk:
    def __init__(self, a, name, args=None):
        self.a, self.site = a, name
        self.g = G(a)
        self.r = r = a.run(a.method("Krates", name), args, opaque=OPQ)
        self.ev = [e for e in r.en.events if e.guard()]
        c = []
        for e in self.ev:
            if e.kind == "mutate" and e.name in POPS and e.args[0].op == "phi" and e.args[0].a[0] in r.en.loops:
                c.append(e)
        if len(c) != 1:
            raise Undecided(name, "no unique work list")
        self.pop = c[0]
        lid, root, comps = self.pop.args[0].a[:3]
        self.L, self.root = r.en.loops[lid], root
        if root not in self.L.init:
            raise Undecided(name, "the work list is not a variable of the walk")
        self.init = self.L.init[root]
        for x in comps:
            self.init = get_comp(self.init, x)
        self.item = some_val(self.pop.res)
        self.more = some_node(self.pop.res)
        # the edges that are followed
        es = []
        for e in self.ev:
            for f in e.frames:
                for x in f.elems or ():
                    s = x.a[0]
                    if s.op == "call" and s.a[0] == "edges_directed" and s.a[2] is self.item and x not in es:
                        es.append(x)
        if len(es) != 1:
            raise Undecided(name, "no unique loop over the edges of a node")
        self.E = es[0]
        d = self.E.a[0].a[3]
        self.dir = d.a[1] if d.op == "V" else None
        if self.dir not in ("Outgoing", "Incoming"):
            raise Undecided(name, "the direction of the edges is not known")
        self.X = mk("call", "target" if self.dir == "Outgoing" else "source", self.E)
        self.W = index_at(self.g.graph, self.X)
        self.inloop = [e for e in self.ev if any(f.lid == lid for f in e.frames) and e is not self.pop]
        self.pushes = [e for e in self.inloop if e.kind == "mutate" and base(e.args[0]) == root]
        # sets of things that were seen
        self.seen_roots = set()
        for e in self.inloop:
            if e.kind == "mutate" and e.name == "set_insert" and base(e.args[0]) not in (None, root):
                self.seen_roots.add(base(e.args[0]))
        for e in self.inloop:
            if e.kind == "mutate" and base(e.args[0]) in self.seen_roots and e.name != "set_insert":
                raise Undecided(name, "the set of visited nodes is changed by %s" % e.name)
        out = base(r.v)
        self.out = out
        self.reports = [e for e in self.inloop if e.kind == "mutate" and out is not None and base(e.args[0]) == out]
        self.marks = [e for e in self.inloop if e.kind == "mutate" and e.name == "set_insert" and base(e.args[0]) in self.seen_roots]

    def seen(self, x, out=True):
        """the questions whether a node was visited before"""
        return [at for at in self.all_atoms() if at.op == "contains" and base(at.a[0]) in self.seen_roots and at.a[1] is x]

    def all_atoms(self):
        s = set()
        for e in self.pushes + self.reports + self.marks:
            s |= set(atoms_in(e.guard()))
        return s

    def fix(self, n, *pairs):
        """value of a condition where some questions are answered"""
        m = {}
        for ats, v in pairs:
            for at in ats:
                m[at] = v
        return fix_atoms(n, lambda at: m.get(at))

    def cond(self, evs, seen=False, item_seen=False):
        """when does one of the events happen, for an edge of a popped node"""
        n = b_or(*[e.guard() for e in evs]) if evs else 0
        n = t.b_and(n)if False else n
        n = restrict(n, self.more)
        return self.fix(n, (self.seen(self.X), seen), (self.seen(self.item), item_seen))


def restrict(n, c):
    """n under the assumption of a conjunction of single atoms"""
    if c in (0, 1):
        return n
    return t.restrict(n, c)


def node_only(w, at):
    """does an atom only depend on the node an edge leads to"""
    hit = []
    walk(subst(at, {w.X: mk("sym", "$n")}), lambda y: hit.append(y) if y is w.E or y.op == "phi" else None)
    return not hit


def judge(rep, w, rule_, got, wants, what):
    """compare a condition with what is specified"""
    for want in wants:
        if n_eq(got, want):
            rep.ok(rule_, w.site)
            return True
    bad = [at for at in atoms_in(got) if taints(at, ("phi",)) or not known(w, at)]
    if bad:
        rep.unk(rule_, w.site, "a condition was not recognised: %s" % show(bad[0], 5))
    else:
        rep.bad(rule_, w.site, "%s when %s instead of %s" % (what, t.show_node(got), t.show_node(wants[0])))
    return False


def known(w, at):
    """conditions about the edge, the nodes at its ends, the parameters and what was visited"""
    hit = []

    def f(y):
        if y.op == "phi" and y not in (w.pop.args[0],) and y.a[1] not in w.seen_roots | {w.root, w.out}:
            hit.append(y)
        if y.op in ("havoc", "undef", "wild", "fold", "eff"):
            hit.append(y)
    walk(at, f)
    return not hit


def common(rep, w):
    """the parts every walk has"""
    # the walk goes on until nothing is left
    if n_eq(w.L.back, w.more) or n_eq(restrict(w.L.back, w.more), 1):
        rep.ok("exhausted", w.site)
    elif all(known(w, at) for at in atoms_in(w.L.back)):
        rep.bad("exhausted", w.site, "the walk can stop before the work list is empty: it goes on when %s" % t.show_node(w.L.back))
    else:
        rep.unk("exhausted", w.site, "when the walk stops was not recognised")
    rec = [r for l, r in w.r.en.fors.items() if any(x is w.E for x in (r.elems or ()))]
    if not rec:
        rep.unk("all-edges", w.site, "the loop over the edges was not found")
    elif rec[0].exit:
        rep.bad("all-edges", w.site, "the loop over the edges is left early when %s" % t.show_node(rec[0].exit))
    else:
        rep.ok("all-edges", w.site)
    w.direction_ok = True


def direction(rep, w, want):
    rep.check(w.dir == want, "direction", w.site, "the %s edges are followed" % w.dir.lower())
    return w.dir == want


def pushed(rep, w):
    """what is put on the work list is the node at the other end of the edge"""
    okk = True
    for e in w.pushes:
        if e.name not in PUSHES:
            rep.unk("follow-node", w.site, "the work list is changed by %s" % e.name)
            okk = False
        elif e.args[-1] is w.X:
            rep.ok("follow-node", w.site)
        else:
            (rep.unk if taints(e.args[-1], ("phi",)) else rep.bad)("follow-node", w.site, "%s is put on the work list" % show(e.args[-1], 5))
            okk = False
    return okk


def marking(rep, w, used):
    """nodes count as visited exactly when they are reported or followed"""
    for e in w.marks:
        x = e.args[-1]
        if x is w.item or not e.guard():
            continue
        if x is not w.X:
            rep.unk("visited", w.site, "%s is marked as visited" % show(x, 4))
            continue
        m = w.cond([e])
        # conditions on the node alone give the same answer next time
        ev = [at for at in atoms_in(b_or(used, m)) if not node_only(w, at)]
        again = b_exists(used, [t._avar[at] for at in ev]) if ev else used
        bad = b_and(m, b_not(used), again)
        if not bad:
            rep.ok("visited", w.site)
        else:
            rep.bad("visited", w.site, "a node is marked as visited although it was neither reported nor followed: %s" % t.show_node(bad))


def once(rep, w, evs, rule_):
    """a node is reported or followed only if it was not visited, and counts as visited afterwards"""
    for e in evs:
        n = w.cond([e], seen=True)
        if n:
            rep.bad(rule_, w.site, "%s happens again for a node that was visited" % e.name)
            continue
        g = e.guard()
        if any(m.args[-1] is w.X and implies(g, m.guard()) for m in w.marks):
            rep.ok(rule_, w.site)
        else:
            rep.bad(rule_, w.site, "the node is not marked as visited")


def result(rep, w, want, names):
    """every report has the node at the end of the edge"""
    for e in w.reports:
        if e.name not in names:
            rep.unk("result", w.site, "the result is changed by %s" % e.name)
            continue
        vs = e.args[1:]
        expect(rep, "result", w.site, mk("tup", *vs) if len(vs) > 1 else vs[0], want, care=e.guard(), allow=("phi",))
    if not w.reports:
        rep.unk("result", w.site, "where the result is filled was not recognised")


def piece_guards(v):
    return [p.a[1] for p in v.a[1]] if v.op == "coll" else []


def empty_result(w):
    i = w.L.init.get(w.out)
    return i is not None and i.op == "coll" and not i.a[1]


def hidden(w, root):
    """nodes in this set are never reported"""
    return bool(w.reports) and all(any(at.op == "contains" and base(at.a[0]) == root for at in atoms_in(e.guard())) for e in w.reports)


def seen_init(rep, w):
    for root in w.seen_roots:
        v = w.L.init.get(root)
        if v is None:
            continue
        if v.op == "coll" and not v.a[1]:
            rep.ok("visited-start", w.site)
        elif v.op == "coll" and v.kind != "map" if hasattr(v, "kind") else False:
            rep.unk("visited-start", w.site, "nodes are visited from the start")
        elif v.op == "coll" and len(w.seen_roots) == 1 and any(g_ == 1 for g_ in piece_guards(v)) and empty_result(w) and hidden(w, root):
            rep.bad("visited-start", w.site, "a node counts as visited from the start although it was not reported: %s" % show(v, 4))
        else:
            rep.unk("visited-start", w.site, "what is visited at the start was not recognised")


def returned(rep, w, shape=None):
    v = w.r.v
    ph = w.L.phi.get(w.out)
    if shape is None:
        shape = ph
    if ph is None:
        rep.unk("returned", w.site, "the result was not recognised")
        return
    i = w.L.init[w.out]
    expect(rep, "returned", w.site, v, shape, allow=("phi",))


def direct(a, rep, name, d, struct):
    w = Walk(a, name)
    common(rep, w)
    if not direction(rep, w, d):
        return None
    expect_bag(rep, "start", w.site, w.init, coll("vec", [piece((), 1, sym(1))]))
    okk = pushed(rep, w)
    v = V(struct, struct, tuple(a.fields(struct)), *[{"krate": krate(w.W, "krate"), "node_id": w.X, "edge_id": mk("call", "id", w.E)}.get(f, NONE) for f in a.fields(struct)])
    result(rep, w, v, ("push",))
    returned(rep, w)
    i = w.L.init.get(w.out)
    if i is not None:
        expect_bag(rep, "start-empty", w.site, i, coll("vec", []))
    once(rep, w, w.reports, "once")
    once(rep, w, w.pushes, "follow-once")
    seen_init(rep, w)
    return w if okk else None


@rule("C16")
def dependencies(a, rep):
    w = direct(a, rep, "direct_dependencies", "Outgoing", "DirectDependency")
    if w is None:
        return
    k = iskrate(w.W)
    src = index_at(w.g.graph, w.item)
    own = b_or(iskrate(src), as_node(B(eq(proj(src, "Node", "Feature", "krate_index"), w.X))))
    own2 = b_or(as_node(B(eq(w.item, sym(1)))), as_node(B(eq(proj(src, "Node", "Feature", "krate_index"), w.X))))
    R, F = w.cond(w.reports), w.cond(w.pushes)
    free = n_eq(R, k)
    judge(rep, w, "reported", R, [k, b_and(k, own), b_and(k, own2)], "a crate is reported")
    judge(rep, w, "followed", F, [b_not(k), b_and(b_not(k), iskrate(src)), b_and(b_not(k), as_node(B(eq(w.item, sym(1)))))], "a node is followed")
    marking(rep, w, b_or(R, F))
    if free and F:
        rep.bad("own-features", w.site, "features are followed into the crates and features of other crates, whatever crate they belong to")
    else:
        rep.ok("own-features", w.site)


@rule("C17")
def dependents(a, rep):
    w = direct(a, rep, "direct_dependents", "Incoming", "DirectDependent")
    if w is None:
        return
    k = iskrate(w.W)
    ki = proj(w.W, "Node", "Feature", "krate_index")
    is_o, is_i = as_node(B(eq(ki, sym(1)))), as_node(B(eq(ki, w.item)))
    R, F = w.cond(w.reports), w.cond(w.pushes)
    judge(rep, w, "reported", R, [k], "a crate is reported")
    judge(rep, w, "followed", F, [b_and(b_not(k), x) for x in (is_o, is_i, b_or(is_o, is_i))], "a feature is followed")
    marking(rep, w, b_or(R, F))


@rule("C18")
def filtered(a, rep):
    w = Walk(a, "krates_filtered")
    g = w.g
    common(rep, w)
    if not direction(rep, w, "Outgoing"):
        return
    m = elem(g.members)
    fnd, nd = lookup(g, m)
    expect_bag(rep, "start", w.site, g.norm(all_guards(w.init, lambda n: n)), g.norm(coll("vec", [piece((m,), fnd, mk("idx", nd))])))
    i = w.L.init.get(w.out)
    if i is None:
        rep.unk("members", w.site, "where the result starts was not recognised")
    else:
        nw = field(nd, "weight")
        if i.op == "mapext" and i.a[0].op == "coll" and not i.a[0].a[1]:
            i = coll("map", list(i.a[1].a[1]))
        expect(rep, "members", w.site, g.norm(i), g.norm(coll("map", [piece((m,), b_and(fnd, iskrate(nw)), mk("tup", krate(nw, "id"), krate(nw, "krate")))])))
    okk = pushed(rep, w)
    result(rep, w, mk("tup", krate(w.W, "id"), krate(w.W, "krate")), ("map_insert",))
    ph = w.L.phi.get(w.out)
    if ph is not None:
        returned(rep, w, coll("vec", [piece((elem(ph),), 1, field(elem(ph), "1"))]))
    ew = mk("call", "weight", w.E)
    isdep = [is_node(ew, "Edge", v) for v in ("Dep", "DepFeature")]
    hit = [b_and(n, as_node(B(eq(proj(ew, "Edge", v, "kind"), sym(1))))) for n, v in zip(isdep, ("Dep", "DepFeature"))]
    allowed = b_not(b_or(*hit))
    once(rep, w, w.pushes, "follow-once")
    R, F = w.cond(w.reports), w.cond(w.pushes)
    judge(rep, w, "reported", R, [b_and(allowed, iskrate(w.W))], "a crate is reported")
    judge(rep, w, "followed", F, [allowed], "a node is followed")
    marking(rep, w, b_and(R, F) if R else F)
    seen_init(rep, w)
