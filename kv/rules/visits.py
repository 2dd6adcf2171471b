"""Graph construction: each pair of a crate and a feature is worked on once (C08, C09), and the work ends (C12)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model, project
from .features import Loop, head_values

PID, FT = mk("sym", "$pid"), mk("sym", "$ft")
KEY, ITEM = mk("sym", "$q"), mk("sym", "$r")


class Visits:
    """what is remembered about the items of the work list that were handled before"""

    def __init__(self, g):
        self.g, self.W = g, g.walk
        self.work = b_or(*[e.guard() for e in g.ev if g.in_walk(e) and e is not g.pop and e.kind in ("mutate", "write")])
        self.stop = b_or(*[e.guard() for e in g.ev if g.in_walk(e) and e.kind == "panic"])
        n = b_or(self.work, self.stop)
        n = subst_node(n, {g.pid: PID, g.ft: FT})
        leaves = {}
        for r in self.W.next:
            leaves.update(head_values(self.W.phi[r], self.W.next[r]))
        self.leaves = leaves
        inits = {}
        for r in self.W.init:
            if r in self.W.phi:
                inits.update(head_values(self.W.phi[r], self.W.init[r]))
        self.inits = inits
        ft = some_node(FT)
        fa = set(atoms_in(ft))
        for at in atoms_in(n):
            if at.op == "nonempty" and at.a[0].op == "phi" and at.a[0].a[1] == g.stack_root:
                n = cofactor(n, t._avar[at], 1)
        self.state = [at for at in atoms_in(n) if mentions(at, set(leaves))]
        n = project(n, lambda at: at in fa or at in self.state)
        self.skip = b_not(n)

    def at(self, state, kid, ft):
        """is the item skipped in this state"""
        n = self.skip
        m = dict(state)
        m.update({PID: kid, FT: ft})
        return subst_node(n, m)

    def after(self, kid, ft):
        """is the item skipped in the state after handling one"""
        m = {}
        for p, v in self.leaves.items():
            if any(mentions(at, {p}) for at in self.state):
                m[p] = self.unfold(v, p)
        return self.at(m, kid, ft)

    def unfold(self, v, leaf):
        """without the loops that do not change what is remembered"""
        if v.op == "choice":
            return choice([(self.unfold(x, leaf), n) for x, n in alts(v)])
        if v.op == "fold":
            phi, new, old = v.a[3], v.a[4], v.a[5]
            new = self.unfold(new, leaf)
            here = some_node(t.map_get(phi, self.g.pid))
            keep = some_node(t.map_get(new, self.g.pid))
            for kid in (self.g.pid, KEY):
                x, y = self.at({leaf: phi}, kid, ITEM), self.at({leaf: new}, kid, ITEM)
                if kid is KEY:
                    e = as_node(B(eq(self.g.pid, KEY)))
                    for at in atoms_in(e):
                        x, y = cofactor(x, t._avar[at], 0), cofactor(y, t._avar[at], 0)
                if not n_eq(x, y, here):
                    return v
            if not implies(here, keep):
                return v
            return self.unfold(old, leaf)
        return v


def visits(g):
    if "visits" not in g.__dict__:
        g.visits = Visits(g)
    return g.visits


def cases(V):
    """(name, crate, feature, condition): an item next to the one at hand"""
    g = V.g
    f = mk("sym", "$f")
    same_ft = as_node(B(eq(f, some_val(g.ft))))
    ft = some_node(g.ft)
    return [("the crate itself", g.pid, NONE, ft),
            ("a feature of the crate", g.pid, some(f), b_not(ft)),
            ("another feature of the crate", g.pid, some(f), b_and(ft, b_not(same_ft))),
            ("another crate", KEY, NONE, b_not(as_node(B(eq(g.pid, KEY))))),
            ("a feature of another crate", KEY, some(f), b_not(as_node(B(eq(g.pid, KEY)))))]


def compare(V):
    """[(what, case, verdict)] for every item: does handling one change whether another is skipped"""
    g = V.g
    out = []
    base = b_and(g.context, b_not(V.stop))
    for name, kid, ft, care in cases(V):
        before, after = V.at({}, kid, ft), V.after(kid, ft)
        c = b_and(base, care)
        keep = set(atoms_in(b_and(c, b_xnor(before, after)))) - set(atoms_in(c)) | set(atoms_in(before)) | set(atoms_in(after))
        only = lambda n: project(n, lambda at: at in keep)
        out.append((name, only(b_and(c, after, b_not(before))), only(b_and(c, before, b_not(after))), V.at(V.inits, kid, ft)))
    return out


def report(rep, x, rule_, site, what):
    if x == 0:
        rep.ok(rule_, site)
    elif odd(x):
        rep.unk(rule_, site, "the record of what was worked on was not recognised")
    else:
        rep.bad(rule_, site, what)


def odd(x):
    return bool(taints(x, ("phi",)))


def skipped(a, rep, pick_):
    g = model(a)
    V = visits(g)
    if not V.state:
        return
    for name, more, less, init in compare(V):
        if pick_(name):
            report(rep, more, "skipped", name, "%s is never worked on once something else was" % name)
            report(rep, init, "skipped", name + " at the start", "%s is never worked on" % name)


@rule("C08")
def features_worked_on(a, rep):
    skipped(a, rep, lambda n: "feature" in n)


@rule("C09")
def crates_worked_on(a, rep):
    skipped(a, rep, lambda n: "feature" not in n)


@rule("C12")
def once(a, rep):
    """an item that was worked on is skipped from then on"""
    g = model(a)
    V = visits(g)
    if not V.state:
        rep.bad("worked-on-once", "work list", "nothing is remembered about the crates and features that were worked on")
        return
    pushes = b_or(*[e.guard() for e in g.changes() if g.touches(e, g.stack_root)])
    x = b_and(g.context, b_not(V.stop), pushes)
    now, after = V.at({}, g.pid, g.ft), V.after(g.pid, g.ft)
    keep = set(atoms_in(now)) | set(atoms_in(after))
    report(rep, project(b_and(x, b_not(after)), lambda at: at in keep), "worked-on-once", "work list", "an item is worked on again: it adds to the work list but is not remembered")
    report(rep, b_and(x, now), "worked-on-once", "skipped items", "an item that was worked on before adds to the work list again")
    for name, more, less, init in compare(V):
        report(rep, less, "remembered", name, "%s is forgotten and worked on again" % name)
