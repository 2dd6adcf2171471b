"""Graph construction: which resolved dependency a name in a manifest stands for (C15)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model, bases
from .features import spots, Loop, resolved_node
from .match import base as qualifies, parts_of, dash_eq, keyed

LIBS = ("Lib", "RLib", "DyLib", "CDyLib", "StaticLib", "ProcMacro")


class Names:
    """the searches for a resolved dependency of the crate at hand"""

    def __init__(self, g):
        self.g = g
        self.deps = g.norm(field(resolved_node(g, g.pid), "deps"))
        self.memo = {}

    def is_deps(self, e):
        if e.op != "elem":
            return False
        s = e.a[0]
        while s.op == "sorted":
            s = s.a[0]
        if s.id not in self.memo:
            self.memo[s.id] = s is self.deps or self.g.norm(s) is self.deps
        return self.memo[s.id]

    def searches(self, evs):
        """all searches by a condition in values and conditions of the events: {(generator, condition)}"""
        out = {}
        seen = set()

        def f(y):
            if y.op in ("fst", "lst") and len(y.a[0]) == 1 and self.is_deps(y.a[0][0]):
                out.setdefault((y.a[0][0], y.a[1]), y.op)
            elif y.op == "exists" and len(y.a[0]) == 1 and self.is_deps(y.a[0][0]):
                out.setdefault((y.a[0][0], y.a[1]), "any")
        for e in evs:
            for x in e.args:
                if x.id not in seen:
                    seen.add(x.id)
                    walk(x, f)
            for at in atoms_in(e.guard()):
                if at.id not in seen:
                    seen.add(at.id)
                    walk(at, f)
        if any(v != "any" for v in out.values()):
            out = {k: v for k, v in out.items() if v != "any"}
        return out


def wanted(n, e):
    """the name that is looked for: what the resolved name is compared with"""
    out, zips = [], []

    def f(y):
        if y.op == "zip":
            for i in (0, 1):
                x, o = y.a[i], y.a[1 - i]
                if x.op == "call" and x.a[0] == "chars" and x.a[1] is field(e, "name"):
                    zips.append(o)
        elif y.op == "eq" and field(e, "name") in y.a:
            out.append(y.a[0] if y.a[1] is field(e, "name") else y.a[1])
    for at in atoms_in(n):
        walk(at, f)

    out = [x for x in out if not mentions(x, {e})]
    if not zips and not out:
        # only the name of the package is compared
        kn = mk("call", "Kid::name", mk("conv", "Kid", field(e, "pkg")))
        for at in atoms_in(n):
            if at.op == "eq" and kn in at.a:
                out.append(at.a[0] if at.a[1] is kn else at.a[1])

    def plain(x):
        if x.op == "choice":
            return choice([(plain(y), m) for y, m in alts(x)])
        return x.a[1] if x.op == "call" and x.a[0] == "chars" else x
    r = []
    for x in zips or out:
        x = plain(x)
        if x not in r:
            r.append(x)
    return r


def by_feature(e, nm, M):
    """a name in a feature: the resolved name, or the package name if its library has another name"""
    kid = mk("conv", "Kid", field(e, "pkg"))
    kn = mk("call", "Kid::name", kid)
    ver = proj(mk("call", PARSE, mk("call", "Kid::version", kid)), RES, "Ok", "0")
    lst = some_val(map_get(M, kn))
    r = elem(lst)
    at = as_node(B(eq(field(r, "0"), ver)))
    lib = field(pick("fst", (r,), at, r), "1")
    same = as_node(B(eq(nm, kn)))
    return b_or(dash_eq(field(e, "name"), nm), b_and(same, some_node(map_get(M, kn)), exists((r,), at), as_node(B(eq(lib, field(e, "name"))))))


PARSE = "semver_parse:std::result::Result<semver::Version, semver::Error>"


def by_decl(e, nm):
    kn = mk("call", "Kid::name", mk("conv", "Kid", field(e, "pkg")))
    return b_or(dash_eq(field(e, "name"), nm), dash_eq(kn, nm))


def hasop(x, op):
    out = []
    walk(x, lambda y: out.append(y) if y.op == op else None)
    return bool(out)


def tables(n, nm):
    """maps a condition asks about by the name of a package, and the condition in terms of the package's own name"""
    out, sub = [], {}
    names = {x for x, _ in alts(nm)} | {nm}

    def f(y):
        if y.op == "get" and (y.a[1].op == "call" and y.a[1].a[0] == "Kid::name" or y.a[1] in names):
            if y.a[0] not in out:
                out.append(y.a[0])
            if y.a[1] in names:
                sub[y] = y.a[0]
    for at in atoms_in(n):
        walk(at, f)
    return out, sub


@rule("C15")
def feature_names(a, rep):
    g = model(a)
    N = Names(g)
    L = Loop(g)
    loop = N.searches(L.events)
    tree = N.searches([e for e in g.ev if e not in set(L.events) and g.in_walk(e) and e.guard() and
                       (e.name == "entry_insert" or e.kind == "call")])
    tree = {k: v for k, v in tree.items() if k not in loop}
    fn = 0
    roots, seen = set(), set()
    whole = None
    if all(v in L.cls for v in ("Krate", "Strong", "Weak")):
        whole = choice([(x, m) for v, f in (("Krate", "0"), ("Strong", "krate"), ("Weak", "krate"))
                        for x, m0 in alts(L.part(v, f)) for m in [b_and(m0, L.cls[v])] if m])
    for part, what in ((loop, "values of a feature"), (tree, "links between features")):
        for (e, n), op in part.items():
            ws = wanted(n, e)
            if len(ws) > 1 and whole is not None and all(x in {y for y, _ in alts(whole)} for x in ws):
                ws = [whole]
            if len(ws) != 1:
                if any(names_feature(g, at) for at in atoms_in(n)):
                    rep.unk("feature-name", what, "how a dependency is looked up was not recognised")
                continue
            nm = ws[0]
            ms, sub = tables(n, nm)
            seen |= set(ms)
            kn = mk("call", "Kid::name", mk("conv", "Kid", field(e, "pkg")))
            n = subst_node(n, {y: map_get(m, kn) for y, m in sub.items()})
            fn += 1
            if op == "lst":
                rep.bad("feature-name-first", what, "the last dependency of that name is used")
            R = [by_feature(e, nm, m) for m in ms]
            if any(n_eq(n, r) for r in R):
                rep.ok("feature-name", what)
                roots |= {(b.a[0], b.a[1]) for m in ms for b in bases(m) if b.op == "phi"}
            elif n_eq(n, by_decl(e, nm)):
                rep.bad("by-package-name", what, "a name in a feature also stands for a renamed dependency whose package has that name")
            else:
                d = by_decl(e, nm)
                w = R[0] if R else d
                tn = [at for at in atoms_in(n) if at not in set(atoms_in(w)) | set(atoms_in(d)) and taints(at, ("phi", "fold"))]
                over = b_and(n, b_not(b_or(d, *R)))
                (rep.unk if tn else rep.bad)("feature-name", what, "a dependency is taken for the one a feature names if %s" % t.show_node(over, 6) if over else
                                             "a dependency a feature names is not found if %s" % t.show_node(b_and(w, b_not(n)), 6))
    if not fn:
        rep.unk("feature-name", "values of a feature", "no search for the dependency a feature names was found")
    if len(roots) == 1:
        renames(a, rep, g, roots.pop())
    elif not roots:
        if seen and all(unfilled(m) for m in seen):
            rep.bad("library-names", "library names", "no name of a library is ever put into the table that is consulted")
            return
        rep.unk("library-names", "library names", "the table of library names was not found")


def unfilled(m):
    """a map all whose values are lists without an element"""
    if taints(m):
        return False
    if m.op in ("mapadd", "mapset"):
        return unfilled(m.a[0]) and m.a[1].op == "coll" and all(p.op == "piece" and p.a[2].op == "tup" and p.a[2].a[1].op == "coll" and not p.a[2].a[1].a[1] for p in m.a[1].a[1])
    return m.op == "coll" and not m.a[1]


def names_feature(g, at):
    hit = []
    walk(at, lambda y: hit.append(y) if y.op == "field" and y.a[1] == "name" else None)
    return bool(hit)


def renames(a, rep, g, root):
    """the table of libraries that are named differently than their package"""
    site = "library names"
    ev = [e for e in g.ev if e.guard() and e.kind in ("mutate", "write") and e.args and
          any((b.a[0], b.a[1]) == root or b.a[1] == root[1] for b in bases(e.args[0]) if b.op == "phi")]
    starts = [e for e in ev if e.name == "entry_insert"]
    adds = [e for e in ev if e.name != "entry_insert"]
    if len(adds) != 1:
        rep.unk("library-names", site, "no single place where the table is filled")
        return
    e = adds[0]
    els = [x for f in e.frames for x in f.elems or ()]
    if len(els) != 1 or e.name not in ("insert_sorted", "map_insert"):
        rep.unk("library-names", site, "how the table is filled was not recognised")
        return
    p = els[0]
    src = p.a[0]
    while src.op == "sorted":
        src = src.a[0]
    if g.norm(src) is not g.norm(g.packages):
        rep.unk("library-names", site, "the table is filled from %s" % show(src, 5))
        return
    tg = elem(field(p, "targets"))
    k = elem(field(tg, "kind"))
    islib = exists((k,), b_or(*[is_node(k, "cm::TargetKind", v) for v in LIBS]))
    lib = field(pick("fst", (tg,), islib, tg), "name")
    has = exists((tg,), islib)
    diff = b_not(dash_eq(lib, field(p, "name")))
    if e.name != "insert_sorted":
        rep.unk("library-names", site, "how the table is filled was not recognised")
        return
    # the key
    key = [x.args[1] for x in starts]
    if len(key) == 1:
        expect(rep, "library-names-key", site, key[0], field(p, "name"))
    expect(rep, "library-names-entry", site, e.args[2], mk("tup", field(p, "version"), lib), has, allow=("phi", "fold"))
    srch = [x for x in g.ev if x.kind == "bsearch" and x.args[0] is e.args[0]]
    n = e.guard()
    # an entry for the same version is already there
    dup = [at for at in atoms_in(n) if mentions(at, {e.args[0]}) or any(y.op == "phi" for y in phis(at))]
    n = b_exists(n, [t._avar[at] for at in dup])
    want = b_and(has, diff)
    rest = [at for at in atoms_in(n) if at not in set(atoms_in(want))]
    own = b_exists(n, [t._avar[at] for at in rest if not mentions(at, {p})])
    if n_eq(own, want):
        rep.ok("library-names", site)
    else:
        over, under = b_and(own, b_not(want)), b_and(want, b_not(own))
        tn = [at for at in atoms_in(own) if at not in set(atoms_in(want)) and taints(at, ("phi", "fold"))]
        (rep.unk if tn else rep.bad)("library-names", site, "a library counts as renamed if %s" % t.show_node(over, 6) if over else "a renamed library is missed if %s" % t.show_node(under, 6))


def phis(at):
    out = []
    walk(at, lambda y: out.append(y) if y.op == "phi" else None)
    return out


@rule("C15")
def declared_names(a, rep):
    """the name of a declaration and the resolved dependency"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        d = s.decl_term
        if d is None or d.op not in ("fst", "lst") or len(d.a[0]) != 1:
            rep.unk("declared-name", site, "the declaration of the dependency was not found")
            continue
        e = d.a[0][0]
        nd, f, recs = parts_of(s)
        M = d.a[1]
        same = {}
        if keyed(s, nd, f["pkg"]):
            same = {field(nd, f["pkg"]): s.key}
            M = subst_node(M, same)
        nm, rest = (subst_node(x, same) for x in qualifies(s, e, nd, f, parts=True))
        # a declaration that qualifies otherwise, and is the only candidate
        several = [at for at in atoms_in(M) if at.op == "gt" and any(isinstance(y, T) and y.op == "count" for y in at.a)]
        for at in several:
            M = t.cofactor(M, t._avar[at], 0)
        path = t.one_path(rest)
        got = M
        for at, val in path:
            got = t.cofactor(got, t._avar[at], 1 if val else 0)
        want = nm
        for at, val in path:
            want = t.cofactor(want, t._avar[at], 1 if val else 0)
        odd = [at for at in atoms_in(got) if at not in set(atoms_in(want))]
        if n_eq(got, want):
            rep.ok("declared-name", site)
        elif any(taints(at, ("phi", "fold")) for at in odd):
            rep.unk("declared-name", site, "a condition was not recognised: %s" % show(odd[0], 5))
        elif not got:
            rep.unk("declared-name", site, "the conditions on a declaration were not recognised")
        else:
            over, under = b_and(got, b_not(want)), b_and(want, b_not(got))
            rep.bad("declared-name", site, "a declaration of another name is used if %s" % t.show_node(over, 6) if over else "a declaration of that name is not used if %s" % t.show_node(under, 6))
