"""Graph construction: what the features of a crate enable (C37)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model, bases
from .features import resolved_node, PF
from .naming import Names, wanted
from .links import ND, weight, krate_of, crate_at, feature_at, edge_links, links, positions


class Tree:
    """the loop that goes through the enabled features of a crate, once the dependencies are linked"""

    def __init__(self, g):
        self.g = g
        en = g.r.en
        self.edges = []
        lids = {}
        for l, src, dst, var, vf, n in edge_links(g):
            fr = [f for f in l.e.frames if f.kind == "while"]
            if fr and fr[-1].lid != g.lid and not any(f.lid == g.lid for f in l.e.frames):
                lids.setdefault(fr[-1].lid, []).append((l, src, dst, var, n))
        if len(lids) != 1:
            raise Undecided("build_with_metadata", "the loop over the enabled features was not found (%d candidates)" % len(lids))
        self.lid, self.edges = lids.popitem()
        self.L = en.loops[self.lid]
        fr = next(f for f in self.edges[0][0].e.frames if f.lid == self.lid)
        i = self.edges[0][0].e.frames.index(fr)
        outer = [x for f in self.edges[0][0].e.frames[:i] for x in f.elems or ()]
        if len(outer) != 1:
            raise Undecided("build_with_metadata", "the loop over the crates with features was not recognised")
        self.crate = outer[0]
        self.pid = field(self.crate, "0")
        pops = [e for e in g.ev if e.kind == "mutate" and e.name in ("pop", "pop_front", "pop_first", "pop_last") and e.frames and e.frames[-1].lid == self.lid and e.guard()]
        if len(pops) != 1 or pops[0].args[0].op != "phi":
            raise Undecided("build_with_metadata", "the list of features to go through was not found")
        self.pop = pops[0]
        self.stack = self.pop.args[0]
        self.feat = some_val(self.pop.res)
        self.base = b_and(self.pop.guard(), some_node(self.pop.res))
        # what the feature is declared as
        self.table = [(root, v) for root, v in self.L.init.items() if mentions(v, {self.crate}) and v.op == "field" and v.a[0] is field(self.crate, "1")]
        if len(self.table) != 1:
            raise Undecided("build_with_metadata", "the declared features of the crate were not found")
        self.tphi = self.L.phi[self.table[0][0]]
        x = elem(self.tphi)
        self.isit = as_node(B(eq(self.feat, field(x, "0"))))
        self.known = exists((x,), self.isit)
        self.entry = mk("fst", (x,), self.isit, x)


    def plain(self, n):
        """a condition in terms of what is in the graph, however it is looked up"""
        m = {self.tphi: mk("sym", "$enabled"), self.stack: mk("sym", "$stack"), self.crate: mk("sym", "$crate")}
        sub = {}
        for at in atoms_in(n):
            if at.op == "exists":
                k, f = crate_exists(at), feature_exists(at)
                if k is not None:
                    sub[at] = mk("call", "crate_in_graph", k)
                elif f is not None:
                    sub[at] = mk("call", "feature_in_graph", *f)
        return subst_node(self.g.cut_item(swap_atoms(n, sub)), m)

    def judge(self, rep, rule, site, got, want, more, less):
        got, want = self.plain(got), self.plain(want)
        if n_eq(got, want):
            rep.ok(rule, site)
            return
        old = set(atoms_in(want))
        odd = [at for at in atoms_in(got) if at not in old and taints(at, ("fold", "phi")) != taints(at) or at not in old and taints(at)]
        odd = [at for at in odd if taints(at)]
        over, under = b_and(got, b_not(want)), b_and(want, b_not(got))
        d = over or under
        (rep.unk if odd else rep.bad)(rule, site, "%s if %s" % (more if over else less, show_node(d, 4)[:300]))


def swap_atoms(n, sub):
    """a condition with some of its atoms replaced"""
    for at, new in sub.items():
        v = t._avar[at]
        hi, lo = t.cofactor(n, v, 1), t.cofactor(n, v, 0)
        x = atom(new)
        n = b_or(b_and(x, hi), b_and(b_not(x), lo))
    return n


def tree(a):
    g = model(a)
    if not hasattr(g, "_tree"):
        g._tree = Tree(g)
    return g._tree


def new_feature(d):
    """the fields of a feature node that is added where it is used"""
    if d.op == "node_id" and d.a[1].op == "V" and d.a[1].a[1] == "Feature":
        return dict(zip(d.a[1].a[2], d.a[1].a[3:]))
    return None


@rule("C37")
def feature_edges(a, rep):
    T_ = tree(a)
    g = T_.g
    entry = None
    # the node of the feature itself
    for l, src, dst, var, n in T_.edges:
        site = "edge of a feature"
        if var != "Feature":
            rep.bad("kind", site, "the edge is a %s edge" % var)
            continue
        who = {feature_at(x) for x, c in alts(src)}
        if who == {(T_.pid, T_.feat)}:
            rep.ok("from", site)
        elif None in who and any(crate_at(x) is not None for x, c in alts(src)):
            rep.bad("from", site, "the edge starts at a crate")
        elif None in who or any(taints(y, ("phi",)) and not mentions(y, {T_.stack}) for w in who for y in w):
            rep.unk("from", site, "where the edge starts was not recognised: %s" % show(src, 4))
        else:
            w = next(w for w in who if w != (T_.pid, T_.feat))
            rep.bad("from", site, "the edge starts at the feature %s of %s" % (show(w[1], 4), show(w[0], 4)))
    to_crate = [x for x in T_.edges if x[0].e.frames[-1].lid == T_.lid]
    subs = [x for x in T_.edges if x[0].e.frames[-1].lid != T_.lid]
    # to the crate it belongs to
    site = "edge to the crate"
    if not to_crate:
        rep.bad("to-crate", site, "a feature is not linked to the crate it belongs to")
    else:
        ks = {crate_at(x) for c in to_crate for x, _ in alts(c[2])}
        if ks == {T_.pid}:
            rep.ok("to-crate", site)
        elif None in ks:
            rep.unk("to-crate", site, "where the edge ends was not recognised")
        else:
            rep.bad("to-crate", site, "the edge ends at %s" % show(next(k for k in ks if k is not T_.pid), 5))
        T_.judge(rep, "to-crate-when", site, b_or(*[c[4] for c in to_crate]), b_and(T_.base, T_.known),
                 "the edge is added", "the edge is missing")
    ends(rep, T_, subs)
    # to everything it enables
    site = "edges to what a feature enables"
    gens = {x for c in subs for f in c[0].e.frames for x in f.elems or ()} - {T_.crate}
    gens = [x for x in gens if mentions(x, {T_.tphi})]
    if not subs:
        rep.bad("enables", site, "no edge leads from a feature to what it enables")
        return
    if len(gens) != 1 or gens[0].a[0] is not field(T_.entry, "1"):
        rep.unk("enables", site, "the loop over what a feature enables was not recognised: %s" % ", ".join(show(x, 4) for x in gens))
        return
    sub = gens[0]
    kid, name = sub_parts(a, g, sub, rep)
    NT = name_type(a, name, subs)
    if NT is None:
        raise Undecided("build_with_metadata", "the names of what a feature enables were not recognised")
    isf, isr, isk = (is_node(name, NT, v) for v in ("Feature", "Rename", "Krate"))
    own = as_node(B(eq(T_.pid, kid)))
    vf, vr = proj(name, NT, "Feature", "0"), proj(name, NT, "Rename", "0")
    n_all = b_or(*[c[4] for c in subs])
    # which crates are there
    isthere = [at for at in atoms_in(n_all) if at.op == "exists" and crate_exists(at) is kid]
    care0 = b_and(T_.base, T_.known)
    for what, c in (("an own feature", b_and(own, isf)), ("a dependency", b_and(b_not(own), b_not(isf))), ("a feature of a dependency", b_and(b_not(own), isf))):
        got = b_and(n_all, c)
        want = b_and(care0, c)
        if what != "an own feature":
            if len(isthere) != 1:
                rep.unk("enables", what, "how it is known that the dependency is in the graph was not recognised")
                continue
            want = b_and(want, atom(isthere[0]))
        if what == "a feature of a dependency":
            # the link may be left out if the crate's own edge to the dependency was pruned and the feature is not there
            ft = [at for at in atoms_in(n_all) if at.op == "exists" and feature_exists(at) is not None and feature_exists(at)[0] is kid]
            there = b_or(*[atom(at) for at in ft])
            pr = [at for at in atoms_in(got) if at.op == "exists" and at not in ft and at not in isthere and not implies(care0, atom(at))]
            want = b_and(want, b_or(there, *[n for n in [atom(at) for at in pr]]))
        T_.judge(rep, "enables", what, got, want, "an edge is added", "no edge is added")
    # where the edges end
    for l, src, dst, var, n in subs:
        for d, c in alts(dst):
            for V_ in (isf, isr, isk):
                m = b_and(c, n, V_)
                if m:
                    ending(rep, T_, case(d, V_), m, kid, own, V_ == isf, V_ == isr, vf, vr)
    once(a, rep, T_, kid, own, isf, isr)


def case(d, n):
    """an index that was searched for, in one case"""
    if d.op == "lin":
        for p, c in lin_parts(d)[1].items():
            if c == 1 and p.op == "idx":
                q = case(p, n)
                return subst(d, {p: q}) if q is not p else d
    if d.op == "idx" and d.a[0].op == "fst":
        x = d.a[0]
        return mk("idx", mk("fst", x.a[0], restrict(x.a[1], n), x.a[2]))
    if d.op == "node_id":
        f = new_feature(d)
        nm = f and [(v, m) for v, m in alts(f["name"]) if b_and(m, n)]
        if nm and len(nm) == 1:
            return subst(d, {f["name"]: nm[0][0]})
    return d


def ending(rep, T_, d, m, kid, own, isf, isr, vf, vr):
    """where an edge from a feature ends"""
    f, k = feature_at(d), crate_at(d)
    if f is None and k is None:
        rep.unk("ends", "what a feature enables", "the target was not recognised: %s" % show(d, 5))
    elif isf:
        if f is None:
            rep.bad("ends", "feature", "the edge leads to the crate %s, not its feature" % show(k, 5))
        elif f[1] is not vf:
            (rep.unk if taints(f[1], ("phi", "fold")) and not mentions(f[1], {vf}) else rep.bad)("ends", "feature", "the edge leads to the feature %s" % show(f[1], 5))
        elif f[0] is kid or f[0] is T_.pid and (new_feature(d) or not b_and(m, b_not(own))):
            rep.ok("ends", "feature" if new_feature(d) is None else "new feature")
        else:
            rep.bad("ends", "feature", "the edge leads to a feature of %s" % show(f[0], 5))
    elif not b_and(m, b_not(own)):
        rep.ok("ends", "a crate does not depend on itself")
    elif k is kid:
        rep.ok("ends", "renamed dependency" if isr else "dependency")
    elif k is not None:
        rep.bad("ends", "dependency", "the edge leads to the crate %s" % show(k, 5))
    elif isr and f[1] is vr and f[0] in (kid, T_.pid):
        rep.ok("ends", "renamed dependency, by its local name")
    else:
        rep.bad("ends", "dependency", "the edge leads to the feature %s of %s" % (show(f[1], 5), show(f[0], 5)))


def ends(rep, T_, subs):
    """neither loop is left before everything was gone through"""
    site = "enabled features"
    want = T_.plain(b_and(T_.base))
    got = T_.plain(T_.L.back)
    if implies(want, got) or not b_and(want, b_not(got)):
        rep.ok("all", site)
    else:
        left = b_and(want, b_not(got))
        (rep.unk if any(taints(at, ("fold",)) for at in atoms_in(left) if at not in set(atoms_in(want))) else rep.bad)("all", site, "the loop is left early if %s" % show_node(left, 4)[:300])
    lids = {f.lid for c in subs for f in c[0].e.frames if f.kind == "for"} - {f.lid for f in T_.pop.frames}
    for lid in lids:
        rec = T_.g.r.en.fors.get(lid)
        site = "what a feature enables"
        if rec is None or rec.exit is None:
            rep.unk("all", site, "whether all is gone through is not known")
        elif rec.exit == 0:
            rep.ok("all", site)
        elif taints(T_.plain(rec.exit), ("fold", "phi")):
            rep.unk("all", site, "the loop is left early if %s" % show_node(rec.exit, 4)[:300])
        else:
            rep.bad("all", site, "the loop is left early if %s" % show_node(rec.exit, 4)[:300])


def name_type(a, name, subs):
    out = set()
    for c in subs:
        for at in atoms_in(c[4]):
            if at.op == "is" and at.a[0] is name:
                out.add(at.a[1])
        for x in c[1:3]:
            for d, m in alts(x):
                for at in atoms_in(m):
                    if at.op == "is" and at.a[0] is name:
                        out.add(at.a[1])
    return out.pop() if len(out) == 1 else None


def sub_parts(a, g, sub, rep):
    """(package id, name) of what a feature enables"""
    for p, ad in a.p.adts.items():
        if p.endswith("::FeatureEdge") or p == "FeatureEdge":
            fs = {f["n"]: f["ty"] for f in ad["v"][0]["f"]}
            k = [n for n, ty in fs.items() if "Kid" in ty]
            o = [n for n in fs if n not in k]
            if len(k) == 1 and len(o) == 1:
                return field(sub, k[0]), field(sub, o[0])
    raise Undecided("build_with_metadata", "the type of what a feature enables was not found")


def crate_exists(at):
    """the id of the crate whose presence in the graph a condition is about"""
    return crate_at(mk("idx", mk("fst", at.a[0], at.a[1], at.a[0][0]))) if len(at.a[0]) == 1 else None


def feature_exists(at):
    if len(at.a[0]) != 1:
        return None
    e = at.a[0][0]
    x = mk("idx", mk("fst", at.a[0], at.a[1], at.a[0][0]))
    if e.a[0].op == "slice" and e.a[0].a[1] is not I(0):
        x = t.add(e.a[0].a[1], x)
    return feature_at(x)


@rule("C37")
def start(a, rep):
    """every crate in the graph is gone through, from the features that were requested of it"""
    T_ = tree(a)
    g = T_.g
    site = "features that are gone through"
    src = [b for b in bases(T_.crate)]
    root = [r for r in T_.L.phi if T_.L.phi[r] is T_.stack]
    init = T_.L.init[root[0]] if root else None
    if init is None:
        rep.unk("start", site, "the list of features was not found")
    else:
        ok = None
        v, cutoff = init, False
        while v.op == "slice" or v.op == "coll" and len(v.a[1]) == 1 and len(v.a[1][0].a[0]) == 1 and v.a[1][0].a[2] is v.a[1][0].a[0][0]:
            cutoff = cutoff or v.op == "slice" or v.a[1][0].a[1] != 1
            v = v.a[0] if v.op == "slice" else v.a[1][0].a[0][0].a[0]
        if v.op == "proj" and v.a[2:] and v.a[-1] == "features" or v.op == "proj":
            e = next((x for x in chain(v) if x.op == "fst" or x.op == "at"), None)
            ok = crate_of(e)
        if ok is T_.pid and cutoff:
            rep.bad("start", site, "only some of the features of the crate are gone through: %s" % show(init, 5))
        elif ok is T_.pid:
            rep.ok("start", site, "all features that are enabled on the crate")
        elif ok is None:
            rep.unk("start", site, "what the list starts with was not recognised: %s" % show(init, 5))
        else:
            rep.bad("start", site, "the list starts with the features of %s" % show(ok, 5))
    n = b_and(T_.pop.guard(), some_node(T_.pop.res))
    mine = [at for at in atoms_in(n) if mentions(at, {T_.crate})]
    there = [at for at in mine if at.op == "exists" and crate_exists(at) is T_.pid]
    shape = [at for at in mine if at.op == "is" and at.a[2] == "Krate"]
    rest = [at for at in mine if at not in there and at not in shape]
    m = restrict(n, b_and(*[atom(at) for at in there + shape]))
    if not any(at in set(atoms_in(m)) for at in rest):
        rep.ok("start-when", site, "every crate that is in the graph")
    else:
        (rep.unk if any(taints(at, ("fold",)) for at in rest) else rep.bad)("start-when", site, "the features of a crate are gone through only if %s" % show_node(m, 4)[:300])


def chain(x):
    while True:
        yield x
        if x.op in ("elem", "field", "proj", "get", "at") and isinstance(x.a[0], T):
            x = x.a[0]
        else:
            return


def crate_of(e):
    if e is None:
        return None
    if e.op == "fst":
        return crate_at(mk("idx", e))
    return crate_at(e.a[1])


def once(a, rep, T_, kid, own, isf, isr):
    """a new feature node is only made where there is none, is noted on the crate and gone through as well"""
    g = T_.g
    adds = [l for l in links(g, "add_node") if any(f.lid == T_.lid for f in l.e.frames)]
    new = 0
    names = []
    for l in adds:
        for v, c in alts(l.e.args[1]):
            if v.op != "V" or v.a[1] != "Feature":
                (rep.unk if v.op != "V" else rep.bad)("new", "new node", "a node that is not a feature is added: %s" % show(v, 4))
                continue
            f = dict(zip(v.a[2], v.a[3:]))
            for nm, m in alts(f["name"]):
                for w, V_ in (("feature that is gone through", 1),) if nm is T_.feat else (("own feature", b_and(isf, own)), ("renamed dependency", b_and(isr, b_not(own)))):
                    n = b_and(l.n, c, m, V_)
                    if not n:
                        continue
                    ks = {crate_at(case(x, n)) for x, z in alts(f["krate_index"]) if b_and(n, z)}
                    ks = {T_.pid if x is kid and not b_and(V_, b_not(own)) else x for x in ks}
                    k = next(iter(ks)) if len(ks) == 1 else next((x for x in ks if x is not None and x is not T_.pid), None)
                    if k is not T_.pid:
                        (rep.unk if k is None else rep.bad)("new-owner", w, "the new node belongs to %s" % ("an unknown crate" if k is None else show(k, 4)))
                    else:
                        rep.ok("new-owner", w)
                    ex = [at for at in atoms_in(n) if at.op == "exists"]
                    here = [at for at in ex if feature_in(at, V_) == (T_.pid, nm) or feature_in(at, b_and(V_, m)) == (kid, nm) and not b_and(V_, b_not(own))]
                    if not any(not b_and(n, atom(at)) for at in here):
                        (rep.unk if any(taints(at, ("phi", "fold")) and feature_in(at, V_) is None and crate_exists(at) is None and at.a[0][0].a[0].op != "phi" for at in ex) and not here and w != "renamed dependency" else rep.bad)(
                            "once", w, "a feature node is added although the crate may have one of that name")
                    else:
                        rep.ok("once", w)
                    if w == "own feature":
                        new = b_or(new, n)
                        names.append(nm)
    # new own features are gone through
    if new:
        ins = [e for e in g.ev if e.kind == "mutate" and e.name in ("insert", "set_insert") and any(f.lid == T_.lid for f in e.frames) and "Krate" in show(e.args[0], 3)]
        push = [e for e in g.ev if e.kind == "mutate" and e.name in ("push", "push_back", "push_front") and any(f.lid == T_.lid for f in e.frames) and
                e.args[0].op == "phi" and bases_root(e.args[0]) == bases_root(T_.stack)]
        for what, evs in (("noted on the crate", ins), ("gone through", push)):
            n = 0
            for e in evs:
                for v, m in alts(e.args[1]):
                    if v in names:
                        n = b_or(n, b_and(e.guard(), m))
            # unless the crate is known to have it
            left = b_and(new, b_not(n))
            known = [at for at in atoms_in(left) if at.op == "contains"]
            left = b_and(left, *[b_not(atom(at)) for at in known])
            shapes = [at for at in atoms_in(left) if at.op == "is" and at.a[2] == "Krate" and at not in set(atoms_in(new))]
            left = b_and(left, *[atom(at) for at in shapes])
            if left:
                rep.bad("grown", "new feature", "a feature that is enabled by another is not %s if %s" % (what, show_node(left, 4)[:300]))
            else:
                rep.ok("grown", "new feature", what)


def bases_root(x):
    return x.a[1] if x.op == "phi" else None


def feature_in(at, n):
    """(crate, name) of the feature node whose presence a condition is about, in one case"""
    if len(at.a[0]) != 1:
        return None
    return feature_exists(mk("exists", at.a[0], restrict(at.a[1], n)))


@rule("C37")
def table(a, rep):
    """what each resolved feature of a crate is declared to enable"""
    g = model(a)
    N = Names(g)
    found = []
    for e in g.ev:
        if e.kind == "mutate" and e.guard() and g.in_walk(e):
            for x in e.args:
                walk(x, lambda y: found.append((e, y)) if y.op == "V" and y.a[0].endswith("KrateFeatures") else None)
    site = "declared features"

    def whole(v):
        """a list, and not only the first of its elements"""
        if v.op == "call" and v.a[0] in ("take_while", "map_while") and v.a[1].op == "coll":
            rep.bad("table-all", site, "only those up to the first that is not wanted are kept (%s)" % v.a[0])
            return v.a[1]
        return v
    tabs = {v for e, y in found for v in map(whole, y.a[3:]) if v.op == "coll" and v.a[1]}
    if len(tabs) != 1:
        raise Undecided("build_with_metadata", "the declared features of a crate were not found")
    tab = tabs.pop()
    if len(tab.a[1]) != 1 or len(tab.a[1][0].a[0]) != 1 or tab.a[1][0].a[2].op != "tup":
        raise Undecided("build_with_metadata", "the declared features of a crate were not recognised")
    p = tab.a[1][0]
    f = p.a[0][0]
    rn = resolved_node(g, g.pid)
    src = unsorted(f.a[0])
    want = unsorted(g.norm(field(rn, "features")))
    if g.norm(src) is want:
        rep.ok("table-features", site, "the resolved features of the crate")
    else:
        (rep.unk if taints(src, ("phi", "fold")) and not mentions(g.norm(src), {rn}) else rep.bad)("table-features", site, "the features are those of %s" % show(src, 5))
    key, sub = p.a[2].a[0], whole(p.a[2].a[1])
    expect(rep, "table-name", site, key, f)
    gets = {}
    for x in [y for q in sub.a[1] for y in q.a[0]] if sub.op == "coll" else []:
        if x.op == "elem" and x.a[0].op == "proj" and x.a[0].a[0].op == "get":
            gets[x] = x.a[0].a[0]
    if len(gets) != 1 or len(sub.a[1]) != 1 or len(sub.a[1][0].a[0]) != 1:
        rep.unk("table", site, "what a feature enables was not recognised: %s" % show(sub, 4))
        return
    x, get = gets.popitem()
    m = get.a[0]
    if get.a[1] is not f or not (m.op == "field" and m.a[1] == "features"):
        (rep.unk if taints(get, ("phi", "fold")) and m.op != "field" else rep.bad)("table-def", site, "the declaration that is used is %s" % show(get, 5))
        return
    pk = g.norm(m.a[0])
    if pk is g.norm(g.pkg):
        rep.ok("table-def", site, "the declarations of the crate itself")
    else:
        (rep.unk if taints(pk, ("phi", "fold")) and not mentions(pk, {g.norm(g.pid)}) else rep.bad)("table-def", site, "the declarations are those of %s" % show(m.a[0], 5))
    expect_node(rep, "table-when", site, g.cut_item(p.a[1]), g.cut_item(some_node(get)))
    q = sub.a[1][0]
    dep = atom(mk("call", "starts_with", x, S("dep:")))
    find = lambda s: mk("call", "find", x, S(s))
    wk, sl = find("?/"), find("/")
    cases = [("dep:name", dep, slice_(x, I(4), length(x)), None),
             ("name?/feature", b_and(b_not(dep), some_node(wk)), slice_(x, I(0), some_val(wk)), slice_(x, add(some_val(wk), I(2)), length(x))),
             ("name/feature", b_and(b_not(dep), b_not(some_node(wk)), some_node(sl)), slice_(x, I(0), some_val(sl)), slice_(x, add(some_val(sl), I(1)), length(x))),
             ("feature", b_and(b_not(dep), b_not(some_node(wk)), b_not(some_node(sl))), None, x)]
    fn = None
    for p_, ad in a.p.adts.items():
        if p_.endswith("::FeatureEdge"):
            fs = {f_["n"]: f_["ty"] for f_ in ad["v"][0]["f"]}
            fn = [n for n in fs if "Kid" in fs[n]], [n for n in fs if "Kid" not in fs[n]]
    if fn is None or len(fn[0]) != 1 or len(fn[1]) != 1:
        raise Undecided("build_with_metadata", "the type of what a feature enables was not found")
    for what, c, who, feat in cases:
        n = b_and(q.a[1], c)
        got = restrict(n, c)
        lookups = [at for at in atoms_in(n) if at.op == "exists" and len(at.a[0]) == 1 and N.is_deps(at.a[0][0])]
        mine = [at for at in lookups if who is not None and [t.simp(w, c) if hasattr(t, "simp") else w for w in wanted(at.a[1], at.a[0][0])] == [who]]
        need = b_or(*[atom(at) for at in mine]) if who is not None else 1
        if who is not None and not mine:
            (rep.unk if lookups and any(not wanted(at.a[1], at.a[0][0]) for at in lookups) else rep.bad)("table-dep", what, "no dependency of that name is looked for")
            continue
        if what == "name?/feature":
            rest = [at for at in atoms_in(got) if at not in lookups]
            on = [at for at in rest if at.op == "contains" and at.a[1] is who and g.norm(unsorted(at.a[0])) is want]
            if not on and any(taints(g.cut_item(at)) for at in rest):
                rep.unk("table-when", what, "how it is known that a weak dependency is enabled was not recognised")
                continue
            if len(on) != 1:
                rep.bad("table-when", what, "whether the dependency of a weak feature is enabled on the crate is not looked up, but: %s" % ", ".join(show(at, 4) for at in rest)[:300])
                continue
            need = b_and(need, atom(on[0]))
        expect_node(rep, "table-when", what, n, b_and(c, need), c, ("phi", "fold"))
        for v, m_ in alts(q.a[2]):
            m_ = b_and(m_, n)
            if not m_:
                continue
            if v.op != "V":
                rep.unk("table", what, "what is enabled was not recognised: %s" % show(v, 4))
                continue
            vals = dict(zip(v.a[2], v.a[3:]))
            for k, w in alts(vals[fn[0][0]]):
                if not b_and(m_, w):
                    continue
                if who is None:
                    if g.norm(k) is g.norm(g.pid):
                        rep.ok("table-crate", what)
                    else:
                        (rep.unk if taints(k, ("fold",)) else rep.bad)("table-crate", what, "the feature is one of %s" % show(k, 5))
                    continue
                z = [y for y in subterms(k) if y.op in ("fst", "lst") and len(y.a[0]) == 1 and N.is_deps(y.a[0][0])]
                if len(z) != 1:
                    rep.bad("table-crate", what, "the dependency is %s" % show(k, 5)) if k is g.pid or not taints(k, ("fold",)) else rep.unk("table-crate", what, "the dependency is %s" % show(k, 5))
                    continue
                ws = wanted(restrict(z[0].a[1], c), z[0].a[0][0])
                if ws == [who] and k in (field(z[0], "pkg"), mk("conv", "Kid", field(z[0], "pkg"))):
                    rep.ok("table-crate", what)
                else:
                    rep.bad("table-crate", what, "the dependency is %s" % show(k, 5))
            for nm, w in alts(vals[fn[1][0]]):
                w = b_and(m_, w)
                if not w:
                    continue
                if nm.op != "V":
                    rep.unk("table-target", what, "the name was not recognised: %s" % show(nm, 4))
                    continue
                if feat is not None:
                    if nm.a[1] != "Feature" and not (who is None and nm.a[1] == "Rename"):       # the two are the same for the crate itself
                        rep.bad("table-target", what, "a feature is entered as a crate")
                    else:
                        got = [v2 for v2, w2 in alts(nm.a[3]) if b_and(w, w2)]
                        if got == [feat]:
                            rep.ok("table-target", what)
                        else:
                            (rep.unk if taints(got[0], ("phi", "fold")) and not mentions(got[0], {x}) else rep.bad)("table-target", what, "the feature is %s" % ", ".join(show(y, 5) for y in got))
                elif nm.a[1] == "Feature":
                    rep.bad("table-target", what, "a crate is entered as a feature")
                else:
                    kn = [mk("call", "Kid::name", k) for k, w2 in alts(vals[fn[0][0]]) if b_and(w, w2)]
                    same = as_node(B(eq(kn[0], who)))
                    if nm.a[1] == "Krate" and not b_and(w, b_not(same)) or nm.a[1] == "Rename" and not b_and(w, same) and [v2 for v2, w2 in alts(nm.a[3]) if b_and(w, w2)] == [who]:
                        rep.ok("table-target", what, nm.a[1])
                    else:
                        rep.bad("table-target", what, "a dependency is entered as %s if %s" % (show(nm, 3), show_node(b_and(w, b_not(same) if nm.a[1] == "Krate" else same), 3)[:200]))


def unsorted(x):
    while x.op == "sorted":
        x = x.a[0]
    return x


def subterms(x):
    out = []
    walk(x, lambda y: out.append(y))
    return out
