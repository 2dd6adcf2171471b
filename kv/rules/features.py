"""Graph construction: features, optional dependencies and what an edge carries (C05, C08, C09)"""
import re
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model, project, bases
from .edges import recorded, Dep

PF = "builder::features::ParsedFeature"


class Spot(Dep):
    """a recorded edge together with the loops around it"""

    def __init__(self, g, d):
        self.__dict__.update(d.__dict__)
        self.g = g
        fors = g.r.en.fors
        self.rec = fors.get(d.e.frames[-1].lid)
        if self.rec is None:
            raise Undecided("build_with_metadata", "the loop over the kinds of a dependency was not found")
        self.elid = d.e.frames[-1].lid
        # the (crate, (resolved dependency, features)) entry the kinds belong to
        src = [x for x in chain_of(d.dk) if x.op == "elem" and (x.a[0].op in ("fold", "mapext", "mapadd", "coll"))]
        if not src:
            raise Undecided("build_with_metadata", "the map of dependencies of a crate was not found")
        self.entry = src[0]
        self.source = self.entry.a[0]
        self.key = field(self.entry, "0")

    def first(self, x):
        """in the first round of the loop over the kinds that are kept"""
        m = {}
        for r in self.rec.init:
            m.update(head_values(self.rec.phi[r], self.rec.init[r]))
        return subst_node(x, m) if isinstance(x, int) else subst(x, m)

    def inside(self, e):
        return any(f.lid == self.elid for f in e.frames)

    def norm(self, x):
        if self.decl_term is not None:
            x = subst_node(x, {self.decl_term: self.decl}) if isinstance(x, int) else subst(x, {self.decl_term: self.decl})
        return self.g.norm(x)

    def cut(self, x):
        """a value as it depends on the crate, dependency and kind at hand"""
        m = {self.dk: mk("sym", "$dk"), self.entry: mk("sym", "$entry"), self.first(self.entry): mk("sym", "$entry")}
        return self.g.cut_item(subst_node(x, m) if isinstance(x, int) else subst(x, m))

    def local(self, e):
        """condition of an event without what is quantified away from the recorded edge's condition"""
        n = e.guard()
        own = [at for at in atoms_in(n) if at.op == "exists" and any(x.a[0] is self.dk.a[0] for x in at.a[0])]
        n = b_exists(n, [t._avar[at] for at in own])
        return subst_node(n, {self.decl_term: self.decl}) if self.decl_term is not None else n

    def inner(self, e):
        """generators of the loops inside the loop over the kinds"""
        i = next(i for i, f in enumerate(e.frames) if f.lid == self.elid)
        return tuple(x for f in e.frames[i + 1:] for x in (f.elems or ()))


def head_values(phi, init):
    if phi.op == "phi":
        return {phi: init}
    if phi.op in ("V", "tup") and init.op == phi.op:
        out = {}
        for p, q in zip(phi.a, init.a):
            if isinstance(p, T):
                out.update(head_values(p, q))
        return out
    if phi.op == "V":
        return {p: field(init, f) for f, p in zip(phi.a[2], phi.a[3:]) if isinstance(p, T) and p.op == "phi"}
    return {}


def chain_of(x):
    while x.op in ("elem", "field", "proj", "get"):
        yield x
        x = x.a[0]


def spots(g):
    if "spots" not in g.__dict__:
        g.spots = [Spot(g, d) for d in recorded(g)]
    return g.spots


# ---------------------------------------------------------------- values kept in a map of options
def always(x, path, hyp, depth=0):
    """is the option at this place of a value always Some (True), always None (False) or unknown (None)"""
    if depth > 40:
        return None
    if x.op == "choice":
        r = {always(y, path, hyp, depth + 1) for y, _ in alts(x)}
        if len(r) > 1:
            r.discard("hyp")
        return r.pop() if len(r) == 1 else None
    if not path:
        if x.op == "V" and x.a[0] == OPT:
            return x.a[1] == "Some"
        if x.op == "pwith" and x.a[1] == OPT:
            return x.a[2] == "Some"
        if x.op == "field":
            return always(x.a[0], (x.a[1],), hyp, depth + 1)
        return None
    f = path[0]
    if x.op in ("tup", "V"):
        return always(field(x, f), path[1:], hyp, depth + 1)
    if x.op == "with":
        return always(x.a[2] if x.a[1] == f else x.a[0], path[1:] if x.a[1] == f else path, hyp, depth + 1)
    if x.op == "proj" and x.a[1] == "Some" and x.a[0].op == "get":
        if any(b is hyp for b in bases(x.a[0])):
            return "hyp"
        m = map_values(x.a[0].a[0])
        if m is None:
            return None
        r = {always(v, path, hyp, depth + 1) for v in m} - {"hyp"}
        return r.pop() if len(r) == 1 else None
    if x.op == "field":
        return always(x.a[0], (x.a[1],) + path, hyp, depth + 1)
    return None


def map_values(m):
    """the values a map term can hold besides those of the variable it starts from"""
    if m.op == "choice":
        out = []
        for y, _ in alts(m):
            v = map_values(y)
            if v is None:
                return None
            out += v
        return out
    if m.op == "put":
        v = map_values(m.a[0])
        return None if v is None else v + [m.a[2]]
    if m.op == "phi":
        return []
    if m.op == "coll":
        out = []
        for p in m.a[1]:
            if p.op != "piece":
                return None
            v = p.a[2]
            if len(p.a[0]) == 1 and v is p.a[0][0]:
                w = map_values(v.a[0])
                if w is None:
                    return None
                out += w
            else:
                out.append(field(v, "1"))
        return out
    if m.op in ("mapext", "mapadd"):
        v, w = map_values(m.a[0]), map_values(m.a[1])
        return None if v is None or w is None else v + w
    if m.op == "fold":
        v, w = map_values(m.a[4]), map_values(m.a[5])
        return None if v is None or w is None else v + w
    return None


def option_of(source, path):
    """the option kept at this place of every value of the map: True (Some), False (None) or None"""
    vs = map_values(source)
    if not vs:
        return None
    hyp = source.a[3] if source.op == "fold" else None
    r = {always(v, path, hyp) for v in vs} - {"hyp"}
    return r.pop() if len(r) == 1 else None


def settle(s, n):
    """replace tests of the options of the dependency map by what they always are"""
    for at in list(atoms_in(n)):
        if at.op == "is" and at.a[1] == OPT and at.a[2] == "Some":
            path, x = [], at.a[0]
            while x.op == "field" and x is not s.entry:
                path.insert(0, x.a[1])
                x = x.a[0]
            if x is s.entry and path and path[0] == "1":
                r = option_of(s.source, tuple(path[1:]))
                if r is not None:
                    n = cofactor(n, t._avar[at], 1 if r else 0)
    return n


# --------------------------------------------------------------------------- C05
@rule("C05")
def optional(a, rep):
    g = model(a)
    ft = some_node(g.ft)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n = settle(s, s.n)
        n = settle(s, s.first(n))
        opt = as_node(field(s.decl, "optional"))
        plain = b_and(n, b_not(ft))
        if s.decl_term is None:
            rep.unk("optional", site, "the declaration of the dependency was not found")
            continue
        x = b_and(plain, opt)
        if x:
            left = [at for at in atoms_in(x) if at.op == "is" and mentions(at, {s.entry}) and mentions(at.a[0], {s.source})]
            unknown = [at for at in left if at.a[0].op == "field" and at.a[1] == OPT and "dep_kinds" not in show(at, 4)]
            if unknown and not b_and(x, b_not(b_or(*[atom(at) for at in unknown]))):
                rep.unk("optional", site, "it is not known what %s is" % show(unknown[0], 5))
            else:
                rep.bad("optional", site, "an optional dependency is kept although no feature enables it")
        else:
            rep.ok("optional", site, "no optional dependency without a feature")
        # what is not optional is kept whatever the features are
        if b_and(s.n, b_not(ft)):
            y = b_and(plain, b_not(opt))
            if y == 0:
                rep.bad("non-optional", site, "a dependency that is not optional is dropped when no feature enables it")
            else:
                extra = [at for at in atoms_in(y) if mentions(at, {s.decl}) and at is not field(s.decl, "optional")]
                if extra:
                    rep.bad("non-optional", site, "whether a dependency that is not optional is kept depends on %s" % show(extra[0], 6))
                else:
                    rep.ok("non-optional", site)
        if b_and(s.n, ft):
            z = b_and(n, ft)
            p, q = (project(b_and(z, o), lambda at: at.op != "phi") for o in (opt, b_not(opt)))
            v = t._avar.get(field(s.decl, "optional"))
            if v is not None:
                p, q = cofactor(p, v, 1), cofactor(q, v, 0)
            if p == 0:
                rep.bad("enabled", site, "an optional dependency is dropped although a feature enables it")
            elif n_eq(p, q):
                rep.ok("enabled", site, "kept when a feature enables it")
            else:
                rep.bad("enabled", site, "an optional dependency a feature enables is not kept like any other")
    sources(a, rep, g)


def resolved_node(g, kid):
    e = elem(field(some_val(g.resolve), "nodes"))
    return pick("fst", (e,), as_node(B(eq(mk("conv", "Kid", field(e, "id")), kid))), e)


def sources(a, rep, g):
    """the dependencies considered for a crate itself are all of its resolved ones"""
    ft = some_node(g.ft)
    site = "dependencies of a crate"
    done = False
    for s in spots(g):
        for x, n in alts(s.source):
            n = b_and(n, b_and(s.n, b_not(ft)))
            if n == 0 or x.op == "fold":
                continue
            if x.op in ("mapext", "mapadd"):
                parts = [p for y in x.a for p in (y.a[1] if y.op == "coll" else [None])]
            elif x.op == "coll":
                parts = list(x.a[1])
            else:
                parts = [None]
            if None in parts or len(parts) != 1 or parts[0].op != "piece":
                rep.unk("all-resolved", site, "the list of dependencies was not recognised")
                done = True
                continue
            p = g.norm(parts[0])
            es, c, v = p.a
            deps = g.norm(field(resolved_node(g, g.pid), "deps"))
            if len(es) == 1 and es[0].a[0] is deps:
                if c == 1:
                    rep.ok("all-resolved", site)
                elif taints(g.cut_item(c)):
                    rep.unk("all-resolved", site, "the model does not interpret a condition on the dependency")
                else:
                    rep.bad("all-resolved", site, "a resolved dependency is only considered if %s" % show_node(c, 6))
            else:
                rep.unk("all-resolved", site, "the list of dependencies was not recognised")
            done = True
    if not done:
        rep.unk("all-resolved", site, "the list of dependencies was not found")


class Loop:
    """the loop over what a feature enables"""

    def __init__(self, g):
        self.g = g
        a = g.a
        src = [s.source for s in spots(g) if s.source.op == "fold"]
        if not src or len({x.a[2] for x in src}) != 1:
            raise Undecided("build_with_metadata", "the loop over the values of a feature was not found")
        fo = src[0]
        self.lid, self.root = fo.a[2], fo.a[3].a[1]
        self.rec = g.r.en.fors.get(self.lid)
        if self.rec is None or len(self.rec.elems) != 1:
            raise Undecided("build_with_metadata", "the loop over the values of a feature was not found")
        self.sf = self.rec.elems[0]
        pf = a.run(a.method(PF, "from", trait="convert::From"), [self.sf])
        self.val = a.run(a.method(PF, "feat"), [pf.v]).v
        self.ty = next((x.a[0] for x, _ in alts(self.val) if x.op == "V"), None)
        if self.ty is None:
            raise Undecided("ParsedFeature::feat", "the class of a feature value is not known")
        self.cls = {v["n"]: is_node(self.val, self.ty, v["n"]) for v in a.adt(self.ty)["v"]}
        self.class_atoms = {at for n in self.cls.values() for at in atoms_in(n)}
        self.events = [e for e in g.ev if any(f.lid == self.lid for f in e.frames)]

    def searched(self, n):
        """tests whether the dependency a value names was found among the resolved ones"""
        g = self.g
        deps = g.norm(field(resolved_node(g, g.pid), "deps"))
        return [at for at in atoms_in(n) if at.op == "exists" and any(g.norm(x.a[0]) is deps for x in at.a[0]) and mentions(at, {self.sf})]

    def universal(self, rep, rule_, site, want, got, what):
        """obligation: whenever the wanted condition holds for a value that is looked at, this happens"""
        if "stop" not in self.__dict__:
            self.stop = b_or(*[e.guard() for e in self.events if e.kind == "panic"])
        w = b_and(self.rec.outer, b_and(want, b_not(self.stop)), self.g.context)
        # there is an element only if what it is a part of is there
        x = self.sf
        while x.op in ("elem", "proj", "field"):
            if x.op == "proj" and x.a[1] in ("Some", "Ok"):
                w = b_and(w, is_node(x.a[0], OPT if x.a[1] == "Some" else RES, x.a[1]))
            x = x.a[0]
        miss = b_and(w, b_not(got))
        for at in self.searched(miss):
            miss = cofactor(miss, t._avar[at], 1)
        if miss == 0:
            rep.ok(rule_, site)
        elif any(taints(at, ("phi",)) for at in set(atoms_in(miss)) - set(atoms_in(w))):
            rep.unk(rule_, site, "the model does not interpret a condition on the feature value: " + what)
        else:
            rep.bad(rule_, site, "%s if %s" % (what, show_node(newly(miss, w), 5)))

    def part(self, var, f):
        return proj(self.val, self.ty, var, f)

    def of_root(self, e):
        return e.kind == "mutate" and e.args and any(b.op == "phi" and b.a[1] == self.root for b in bases(e.args[0]))

    def active_atoms(self, n):
        """tests whether the dependency already has an edge"""
        g = self.g
        out = set()
        for at in atoms_in(n):
            if at.op == "is" and at.a[0].op == "get" and any(b.op == "phi" and b.a[1] == g.kept_root for b in bases(at.a[0])):
                out.add(at)
        return out


@rule("C05")
def weak(a, rep):
    g = model(a)
    L = Loop(g)
    site = "values of a feature"
    adds = [e for e in L.events if L.of_root(e) and e.guard()]
    if not adds:
        rep.unk("activates", site, "no place was found where a feature value selects a dependency")
        return
    U = b_or(*[e.guard() for e in adds])
    out = b_or(*[e.guard() for e in L.events])
    act_at = L.active_atoms(U)
    deps_at = [at for at in act_at if any(y.op == "field" or y.op == "proj" for y in [at.a[0].a[0]])]
    keep = L.class_atoms | act_at
    simple, wk = L.cls.get("Simple"), L.cls.get("Weak")
    if simple is None or wk is None:
        rep.unk("activates", site, "the classes of feature values have changed")
        return
    pu = project(U, lambda at: at in keep)
    kept_at = [at for at in act_at if at not in deps_at]
    act = b_and(*[atom(at) for at in deps_at] + [atom(at) for at in kept_at]) if deps_at else 0
    want = b_and(b_not(simple), b_or(b_not(wk), act))
    if n_eq(pu, want) and deps_at:
        L.universal(rep, "activates", site, want, U, "a dependency is not selected by a feature value")
    elif taints(project(U, lambda at: at in L.class_atoms or at.op != "phi")) and not deps_at:
        x = b_and(project(U, lambda at: at in L.class_atoms), wk)
        if x and n_eq(project(b_and(U, wk), lambda at: at in L.class_atoms), wk) and not state_atoms(g, b_and(U, wk), L):
            rep.bad("activates", site, "a weak feature value selects its dependency whether or not it is active")
        else:
            rep.unk("activates", site, "the test whether a dependency is already active was not recognised")
    elif b_and(pu, b_not(want)):
        rep.bad("activates", site, "a dependency is selected although the feature value is %s" % show_node(b_and(pu, b_not(want)), 6))
    else:
        rep.bad("activates", site, "a dependency is not selected although the feature value is %s" % show_node(b_and(want, b_not(pu)), 6))
    # a weak value whose dependency is not active is remembered
    pend = [e for e in L.events if e.kind == "mutate" and not L.of_root(e) and e.guard() and e.name in ("set_insert", "push", "insert", "entry_insert", "extend") and
            e.args[0].op in ("choice", "field", "get", "proj", "coll") and pending_place(g, e)]
    P0 = b_or(*[e.guard() for e in pend])
    R = b_or(*[remembers(e) for e in pend])
    P = project(R, lambda at: at in keep)
    wantp = b_and(wk, b_not(act))
    if R != P0 and b_and(P0, b_not(R)):
        x = b_and(P0, b_not(R))
        (rep.unk if taints(x, ("phi", "fold")) else rep.bad)("remembered", site, "a weak feature value is not added to the remembered ones if %s" % show_node(newly(x, R), 5))
    elif n_eq(P, wantp):
        L.universal(rep, "remembered", site, wantp, R, "a weak feature value of a dependency that is not active yet is forgotten")
    elif P == 0 or b_and(wantp, b_not(P)):
        rep.bad("remembered", site, "a weak feature value of a dependency that is not active yet is forgotten")
    else:
        rep.bad("remembered", site, "a feature value is only remembered although it selects its dependency")


    # what is no longer remembered takes effect
    for e in L.events:
        if e.kind == "mutate" and e.name == "map_remove" and not L.of_root(e) and pending_place(g, e) and e.guard() and isinstance(e.res, T):
            got = some_val(e.res)
            need, have, odd = b_and(e.guard(), some_node(e.res)), 0, False
            for x in adds:
                if x.name in ("entry_insert", "map_remove"):
                    continue
                for es, v, n in values_of(x):
                    gens = tuple(y for f in x.frames for y in (f.elems or ()))
                    if v.op == "elem" and v.a[0] is got and (v in es or v in gens):
                        n = b_and(n, x.guard())
                        have = b_or(have, b_exists(n, [t._avar[at] for at in atoms_in(n) if at.op == "nonempty" and at.a[0] is got]))
                    elif mentions(v, {got}):
                        odd = True
            lost = b_and(need, b_not(have))
            if not lost:
                rep.ok("remembered-applied", site)
            else:
                rep.bad("remembered-applied", site, "weak feature values that were remembered are %s when their dependency is selected" % ("lost in part" if odd or have else "lost"))
    # each value is looked at
    for lid, what in ((L.lid, "values of a feature"),) + tuple({(s.e.frames[i].lid, "dependencies of a crate") for s in spots(g) for i in range(len(s.e.frames)) if s.entry in (s.e.frames[i].elems or ())}) + tuple({(s.elid, "kinds of a dependency") for s in spots(g)}):
        rec = g.r.en.fors.get(lid)
        if rec is None or rec.exit is None:
            rep.unk("each", what, "the loop was not found")
        elif rec.exit == 0:
            rep.ok("each", what)
        elif taints(rec.exit, ("phi", "fold")):
            rep.unk("each", what, "the model does not know when the loop is left early")
        else:
            rep.bad("each", what, "the loop is left early if %s" % show_node(rec.exit, 5))


def newly(x, y):
    """the part of a condition that tells it from another one"""
    keep = set(atoms_in(x)) - set(atoms_in(y)) if set(atoms_in(x)) - set(atoms_in(y)) else set(atoms_in(x))
    return project(x, lambda at: at in keep)


def remembers(e):
    """the condition under which a change of the remembered values adds to them"""
    if e.name != "entry_insert":
        return e.guard()
    n = 0
    for x, c in alts(e.args[2]):
        if x.op == "coll" and x.a[1] and x.a[0] != "map":
            n = b_or(n, c)
        elif x.op == "coll" and not x.a[1] or x.op == "proj":
            continue
    return b_and(e.guard(), n)


def state_atoms(g, n, L):
    return [at for at in atoms_in(n) if at not in L.class_atoms and mentions(at, {L.sf}) and g.state_atom(at)]


def pending_place(g, e):
    """does a change go to (a part of) a map kept per crate, other than the map of kept crates and the work list"""
    bs = list(bases(e.args[0]))
    if any(b.op == "phi" and b.a[1] in (g.kept_root, g.stack_root) for b in bs):
        return False
    return any(b.op == "phi" and b.a[0] != 0 for b in bs)


def added(s, root):
    """what is added to a variable while the entry of a dependency is handled: (value, condition, loop generators)"""
    g = s.g
    dl = next((f.lid for f in s.e.frames if s.entry in (f.elems or ())), None)
    if dl is None:
        raise Undecided("build_with_metadata", "the loop over the dependencies of a crate was not found")
    out = []
    for e in g.ev:
        if e.kind == "mutate" and e.name not in ("entry_insert", "map_remove") and g.touches(e, root) and any(f.lid == dl for f in e.frames) and e.guard():
            i = next(i for i, f in enumerate(e.frames) if f.lid == dl)
            gens = tuple(x for f in e.frames[i + 1:] if f.lid != s.elid for x in (f.elems or ()) if x.a[0] is not s.dk.a[0])
            for es, v, n in values_of(e):
                n = b_and(s.local(e), n)
                v, n = s.first(v), s.first(n)
                out.append((e, tuple(s.first(x) for x in gens) + es, v, settle(s, n)))
    return out


def values_of(e):
    """what a change of a collection adds"""
    v = e.args[-1]
    if e.name in ("extend", "append"):
        out = []
        for (es, w), n in bag(v, 1, lambda x: x).items():
            out.append((es, w, n))
        return out
    return [((), v, 1)]


def pushed(s):
    """crate and feature pairs added to the work list: (crate, feature or None, generators, condition)"""
    g = s.g
    i, k, names = g.pair
    out = []
    for e, es, v, n in added(s, g.stack_root):
        for w, c in alts(v):
            if w.op not in ("tup", "V"):
                raise Undecided("build_with_metadata", "what is pushed on the work list was not recognised")
            crate = field(w, names[i])
            for f, c2 in alts(field(w, names[k])):
                nn = b_and(n, b_and(c, c2))
                if nn == 0:
                    continue
                if f.op != "V" or f.a[0] != OPT:
                    out.append((crate, None, es, b_and(nn, is_node(f, OPT, "None"))))
                    out.append((crate, some_val(f), es, b_and(nn, some_node(f))))
                else:
                    out.append((crate, None if f.a[1] == "None" else some_val(f), es, nn))
    return out


def base_first(s):
    """the condition of the first edge that is kept, whether or not an equal edge exists already"""
    n = settle(s, s.first(settle(s, s.n)))
    d = [at for at in atoms_in(n) if at.op == "exists" and any(any(b.op == "phi" and b.a[1] == s.g.kept_root for b in bases(x.a[0])) for x in at.a[0])]
    return n, b_exists(n, [t._avar[at] for at in d])


def is_pending(g, x):
    """an element remembered for the crate: elem(get(map, key)!Some.0)"""
    if x.op != "elem":
        return None
    c = x.a[0]
    for y, _ in alts(c):
        if not (y.op == "proj" and y.a[1] == "Some" and y.a[0].op == "get"):
            return None
        c = y
    bs = list(bases(c.a[0]))
    if not bs or any(b.op != "phi" or b.a[1] in (g.kept_root, g.stack_root) for b in bs):
        return None
    return c.a[0]


@rule("C05")
def applied(a, rep):
    """weak features remembered for a dependency take effect with its first edge"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n, n0 = base_first(s)
        key = s.first(s.key)
        for what, items in (("visited", [(f, es, m) for c, f, es, m in pushed(s) if f is not None and c is key]),
                            ("linked", [(v, es, m) for e, es, v, m in added(s, g.kept_root)])):
            Q, srcs = 0, set()
            for v, es, m in items:
                if v is None or v.op in ("V", "tup"):
                    continue
                p = is_pending(g, v)
                if p is not None:
                    if p.a[1] is not key:
                        rep.bad("applied", site, "the features remembered for %s are enabled on another crate" % show(p.a[1], 5))
                        continue
                    srcs.add(p)
                    Q = b_or(Q, b_exists(m, [t._avar[at] for at in atoms_in(m) if at.op == "exists" and mentions(at, set(es))]) if es else m)
            if not srcs:
                rep.bad("applied", site, "weak feature values remembered for the dependency are never %s" % what)
                continue
            want = b_and(n, b_or(*[some_node(p) for p in srcs]))
            if implies(want, Q):
                rep.ok("applied", site, what)
            else:
                rep.bad("applied", site, "weak feature values remembered for the dependency are not %s if %s" % (what, show_node(b_and(want, b_not(Q)), 5)))


@rule("C05")
def with_an_edge(a, rep):
    """a dependency counts as one of the crate only with an edge: weak features take effect on it as soon as it does"""
    g = model(a)
    sp = spots(g)
    k = 0
    for e in g.ev:
        if e.kind != "mutate" or not g.in_walk(e) or not g.touches(e, g.kept_root):
            continue
        if not any(p and p[1] for p in e.places) or not any(v.op == "V" and holds_edges(g, v.a[0]) for v, _ in alts(e.args[-1])):
            continue
        k += 1
        site = "new dependency %d" % k
        if any(s.inside(e) for s in sp):
            rep.ok("with-an-edge", site, "made while an edge is recorded")
            continue
        depth = lambda s: sum(1 for p, q in zip(e.frames, s.e.frames) if p.lid == q.lid)
        s = max(sp, key=depth)
        own = [at for at in atoms_in(s.e.guard()) if at.op == "exists" and any(x.a[0] is s.dk.a[0] for x in at.a[0])]
        x = b_and(e.guard(), b_not(b_or(*[atom(at) for at in own])))
        if x == 0:
            rep.ok("with-an-edge", site, "made only if one of the kinds is kept")
        elif not own or depth(s) < 2 or any(at not in own and mentions(at, {s.dk.a[0]}) for at in atoms_in(x)):
            rep.unk("with-an-edge", site, "the condition is not one on the kinds that are kept")
        else:
            rep.bad("with-an-edge", site, "a dependency is recorded for the crate although no edge to it is kept: if %s" % show_node(x, 3)[:300])


def holds_edges(g, ty, depth=0):
    """has the type a list of recorded edges"""
    d = g.a.adt(ty)
    names = {dep.v.a[0].rsplit("::", 1)[-1] for dep in recorded(g)}
    return bool(d) and any(re.search(r"\b(Vec|BTreeSet|BTreeMap|HashSet|VecDeque|IndexSet)<.*\b(%s)\b" % "|".join(names), f["ty"]) for v in d["v"] for f in v["f"])


# --------------------------------------------------------------------------- C08
@rule("C08")
def requested(a, rep):
    """the features an edge enables on the dependency"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n, n0 = base_first(s)
        key = s.first(s.key)
        feats = [f for f in s.f if s.f[f] is not s.kind and s.f[f] is not s.cfg and s.f[f].op != "idx"]
        if len(feats) != 1 or s.decl_term is None:
            rep.unk("requested", site, "the features of a recorded edge were not found")
            continue
        rn = g.norm(resolved_node(g, s.norm(key)))
        nf = field(rn, "features")
        fe = elem(nf)
        has = as_node(B(contains(nf, S("default"))))
        df = elem(field(s.decl, "features"))
        pos = lambda x: mk("idx", pick("fst", (fe,), as_node(B(eq(x, fe))), fe))
        want = coll("vec", [piece((df,), 1, pos(df)), piece((), b_and(has, as_node(field(s.decl, "uses_default_features"))), pos(S("default")))])
        got = subst(s.f[feats[0]], {s.decl_term: s.decl})
        expect_bag(rep, "requested", site, got, want, 1, lambda x: s.cut(s.norm(x)))
        # each of them is enabled, and no others
        w = bag(want, 1, s.norm)
        have = {}
        ps = pushed(s)
        sel = elem(some_val(s.first(field(field(s.entry, "1"), "1"))))
        for c, f, es, m in ps:
            if f is None:
                continue
            if c is not key:
                rep.bad("enabled", site, "a feature of another crate is enabled: %s" % show(c, 5))
                continue
            es, f, m = tuple(s.norm(x) for x in es), s.norm(f), s.norm(m)
            f, es = unseq(f, es)
            have[(es, f)] = b_or(have.get((es, f), 0), m)
        nn = s.norm(n)
        have = {k: m for k, m in have.items() if m and not is_pending(g, k[1]) and k[1] is not s.norm(sel) and k[1] is not sel}
        for (es, v), c in w.items():
            m = have.pop((es, v), 0)
            if implies(b_and(nn, c), m):
                rep.ok("enabled", site, show(v, 2))
            elif any(k not in w for k in have):
                rep.unk("enabled", site, "what is pushed on the work list was not recognised")
            else:
                rep.bad("enabled", site, "a feature the edge asks for is not enabled on the dependency: %s if %s" % (show(v, 3), show_node(b_and(b_and(nn, c), b_not(m)), 5)))
            if b_and(m, b_not(c)):
                extra = b_exists(b_and(m, b_not(c)), [])
                rep.bad("enabled", site, "a feature the edge does not ask for is enabled on the dependency: %s if %s" % (show(v, 3), show_node(extra, 5)))
        for (es, v), m in have.items():
            if taints(v, ("phi", "fold")):
                rep.unk("enabled", site, "what is pushed on the work list was not recognised")
            else:
                rep.bad("enabled", site, "a feature nothing asks for is enabled on the dependency: %s" % show(v, 5))


def unseq(v, es):
    return v, es


@rule("C08")
def by_feature(a, rep):
    """what a feature of the crate enables: sub-features, and features of dependencies"""
    g = model(a)
    L = Loop(g)
    site = "values of a feature"
    simple = L.cls["Simple"]
    i, k, names = g.pair
    # plain values enable the feature of that name on the same crate
    rn = resolved_node(g, g.pid)
    fe = elem(g.norm(field(rn, "features")))
    pos = lambda fe, x: mk("idx", pick("fst", (fe,), as_node(B(eq(x, fe))), fe))
    P = PP = 0
    for e in L.events:
        if not g.touches(e, g.stack_root) or not e.guard():
            continue
        for es, w, n in values_of(e):
            for w, c in alts(w):
                n2 = b_and(b_and(e.guard(), n), c)
                crate, f = field(w, names[i]), field(w, names[k])
                if n2 == 0:
                    continue
                n3, n2 = n2, project(n2, lambda at: at in L.class_atoms)
                for f, c2 in alts(f):
                    if g.norm(crate) is not g.norm(g.pid):
                        rep.bad("sub-feature", site, "a sub-feature is enabled on another crate: %s" % show(crate, 5))
                    elif f.op == "V" and f.a[1] == "None":
                        continue
                    else:
                        got = g.norm(some_val(f))
                        want = g.norm(pos(fe, L.part("Simple", next(iter(variant_fields(a, L.ty, "Simple"))))))
                        if same(got, want, n2):
                            P = b_or(P, n2)
                            PP = b_or(PP, n3)
                        elif taints(got, ("phi",)):
                            rep.unk("sub-feature", site, "which feature is enabled was not recognised: %s" % show(got, 6))
                        else:
                            rep.bad("sub-feature", site, "enables %s instead of %s" % (show(got, 6), show(want, 6)))
    if n_eq(P, simple):
        L.universal(rep, "sub-feature", site, simple, PP, "a sub-feature is not enabled")
    elif b_and(simple, b_not(P)):
        rep.bad("sub-feature", site, "a sub-feature is not enabled if the value is %s" % show_node(b_and(simple, b_not(P)), 5))
    else:
        rep.bad("sub-feature", site, "a value that is no sub-feature is enabled as one: %s" % show_node(b_and(P, b_not(simple)), 5))
    # `krate/feature` selects the feature on the dependency
    adds = [e for e in L.events if L.of_root(e) and e.guard() and e.name in ("set_insert", "push", "insert") and e.args[0].op != "phi"]
    U = b_or(*[e.guard() for e in L.events if L.of_root(e) and e.guard()])
    F = 0
    vals = {}
    for e in adds:
        vals[e] = e.args[-1]
        F = b_or(F, e.guard())
    cls = lambda n: project(n, lambda at: at in L.class_atoms or at in L.active_atoms(U))
    feat = b_or(L.cls["Strong"], L.cls["Weak"])
    want = b_and(cls(U), feat)
    if not adds:
        rep.bad("dep-feature", site, "the features of dependencies that a feature names are not enabled")
    elif n_eq(cls(F), want):
        L.universal(rep, "dep-feature", site, b_and(U, feat), F, "a feature of a dependency is not enabled")
    elif b_and(want, b_not(cls(F))):
        rep.bad("dep-feature", site, "a feature of a dependency is not enabled if the value is %s" % show_node(b_and(want, b_not(cls(F))), 5))
    else:
        rep.bad("dep-feature", site, "a feature of a dependency is enabled if the value is %s" % show_node(b_and(cls(F), b_not(want)), 5))
    # both where it takes effect at once and where it is remembered, it is the named feature of the dependency
    pend = [e for e in L.events if e.kind == "mutate" and not L.of_root(e) and e.guard() and e.name in ("set_insert", "push", "insert") and pending_place(g, e)]
    for e in adds + pend:
        v = e.args[-1]
        n = b_and(e.guard(), feat)
        if v.op == "idx" and v.a[0].op == "fst" and len(v.a[0].a[0]) == 1:
            c = v.a[0].a[0][0]
            bound = c.a[0]
            ok = True
            for var in ("Strong", "Weak"):
                fs = list(variant_fields(a, L.ty, var))
                ff = [x for x in fs if x == "feature"] or fs[-1:]
                w = as_node(B(eq(c, L.part(var, ff[0]))))
                care = b_and(n, L.cls[var])
                # the position of the element equal to the feature that is named
                if care and not n_eq(v.a[0].a[1], w, care):
                    ok = False
            owner = bound.a[0] if bound.op == "field" else None
            while owner is not None and owner.op == "sorted":
                owner = owner.a[0]
            if not ok:
                (rep.unk if taints(v.a[0].a[1], ("phi",)) else rep.bad)("dep-feature-name", site, "the feature %s is looked up" % show_node(v.a[0].a[1], 6))
            elif bound.op == "field" and bound.a[1] == "features" and owner_is_dep(g, bound.a[0], e):
                rep.ok("dep-feature-name", site)
            elif bound.op == "field" and bound.a[1] == "features" and g.norm(bound.a[0]) is g.norm(resolved_node(g, g.pid)):
                rep.bad("dep-feature-name", site, "a feature of a dependency is looked up among those of the crate itself")
            else:
                rep.unk("dep-feature-name", site, "the crate whose feature is enabled was not recognised")
        else:
            rep.unk("dep-feature-name", site, "the feature was not recognised")


def owner_is_dep(g, node, e):
    """is this the resolved node of the crate the change is filed under"""
    node = g.norm(node)
    keys = set()
    walk(e.args[0], lambda y: keys.add(g.norm(y.a[1])) if y.op == "get" else None)
    keys.discard(g.norm(g.pid))
    return any(node is g.norm(resolved_node(g, k)) for k in keys)


def variant_fields(a, ty, var):
    return [f["n"] for v in a.adt(ty)["v"] if v["n"] == var for f in v["f"]]


def filed(a, rep):
    """what is noted of a dependency is noted under that dependency, not under the crate itself"""
    g = model(a)
    L = Loop(g)
    site = "values of a feature"
    me = g.norm(g.pid)
    bad = 0

    def of_crate(m):
        """a map that is part of what is kept of the crate"""
        hit = []
        walk(m, lambda y: hit.append(y) if y.op == "get" and g.norm(y.a[1]) is me else None)
        return bool(hit)
    for e in L.events:
        if not e.guard() or e.kind != "mutate" or g.touches(e, g.stack_root):
            continue
        if e.name in ("entry_insert", "map_insert", "map_remove") and len(e.args) > 1 and any(g.norm(k) is me for k, _ in alts(e.args[1])):
            bad += 1
            rep.bad("filed", site, "%s files what concerns a dependency under the crate itself" % e.name)
    for e in L.events:
        for at in atoms_in(e.guard()):
            if at.op == "is" and at.a[0].op == "get" and g.norm(at.a[0].a[1]) is me and of_crate(at.a[0].a[0]):
                bad += 1
                rep.bad("filed", site, "the crate itself is looked up among its dependencies: %s" % show(at, 4))
                break
    if not bad:
        rep.ok("filed", site)


@rule("C05")
def filed_weak(a, rep):
    filed(a, rep)


@rule("C08")
def filed_features(a, rep):
    filed(a, rep)


@rule("C08")
def selected(a, rep):
    """features of a dependency that were selected by a feature are enabled with its first edge, and linked"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n, n0 = base_first(s)
        if b_and(n0, some_node(g.ft)) == 0:
            continue
        key = s.first(s.key)
        sel = field(field(s.entry, "1"), "1")
        for what, items in (("enabled", [(f, es, m) for c, f, es, m in pushed(s) if f is not None and c is key]),
                            ("linked", [(v, es, m) for e, es, v, m in added(s, g.kept_root)])):
            Q = 0
            for v, es, m in items:
                if v is not None and v.op == "elem" and v.a[0] is some_val(sel):
                    Q = b_or(Q, m)
            if Q == 0:
                unknown = [v for v, es, m in items if v is not None and v.op == "elem" and not is_pending(g, v)]
                (rep.unk if unknown else rep.bad)("selected", site, "features selected for the dependency are never %s" % what)
            elif implies(b_and(n0, some_node(g.ft)), b_exists(Q, [])):
                rep.ok("selected", site, what)
            else:
                rep.bad("selected", site, "features selected for the dependency are not %s if %s" % (what, show_node(b_and(n0, b_not(Q)), 5)))
