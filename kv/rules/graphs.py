"""Graph construction: which packages become nodes (C01, C02, C07, C13)"""
import re
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .cmdr import setter

DEPKIND = "DepKind"


class Build:
    """the parts of the graph construction, found by what they do"""

    def __init__(self, a):
        self.a = a
        fs = a.fields(BLD)
        self.f = lambda pat: field(sym(0), a.field_by_type(BLD, pat))
        self.r = r = built(a)
        self.ev, self.loops = r.en.events, r.en.loops
        md = "cm::Metadata"
        self.packages = field(sym(1), "packages")
        self.members = field(sym(1), "workspace_members")
        self.resolve = field(sym(1), "resolve")
        self.exclude = self.f(r"PkgSpec")
        self.context = some_node(self.resolve)
        self.memo = {}
        self.find_walk()
        self.unique = {self.packages: lambda e: mk("conv", "Kid", field(e, "id"))}

    def norm(self, n):
        """order-free form, with packages found by their id"""
        return rebind(n, self.memo, self.unique)

    def find_walk(self):
        """the loop that works through (crate, feature) pairs starting from the roots"""
        c = []
        for e in self.ev:
            if e.kind == "mutate" and e.name in ("pop", "pop_front", "pop_back", "pop_first", "pop_last") and e.args[0].op == "phi":
                lid, root, comps = e.args[0].a[:3]
                L = self.loops.get(lid)
                if L is None or root not in L.init:
                    continue
                init = L.init[root]
                for x in comps:
                    init = get_comp(init, x)
                found = []
                walk(init, lambda y: found.append(y) if y is self.members else None)
                if found:
                    c.append((e, L, root, init))
        if len(c) > 1:
            # a later work list can start with what an earlier one led to
            lids = {x[1].lid for x in c}

            def later(x):
                found = []
                walk(x[3], lambda y: found.append(y) if y.op in ("phi", "fold", "exit") and y.a and (lids - {x[1].lid}) & set(z for z in y.a if isinstance(z, (int, str))) else None)
                return bool(found)
            c = [x for x in c if not later(x)]
        if len(c) != 1:
            raise Undecided("build_with_metadata", "no unique work list of crates and features")
        self.pop, self.walk, self.stack_root, self.stack_init = c[0]
        self.item = some_val(self.pop.res)
        self.lid = self.walk.lid
        # the components of a pair: which crate, and which of its features
        vs = [v for (es, v), g in bag(self.stack_init).items()]
        if all(v.op == "tup" and len(v.a) == 2 for v in vs):
            comp = [[v.a[i] for v in vs] for i in (0, 1)]
            names = ("0", "1")
        elif all(v.op == "V" and len(v.a) == 5 for v in vs):
            comp = [[v.a[i] for v in vs] for i in (3, 4)]
            names = vs[0].a[2]
        else:
            raise Undecided("build_with_metadata", "the work list does not hold pairs")
        isft = [any(x.op == "V" and x.a[0] == OPT for x in c) for c in comp]
        if sorted(isft) != [False, True]:
            raise Undecided("build_with_metadata", "the work list does not hold pairs of a crate and an optional feature")
        k = isft.index(True)
        self.pid, self.ft = field(self.item, names[1 - k]), field(self.item, names[k])
        self.pair = (1 - k, k, names)
        self.item_ty = vs[0].a[:2] if vs[0].op == "V" else None
        # the map of crates that are kept: the build fails when it is empty
        m = set()
        for at in atoms_in(is_node(self.r.v, RES, "Err")):
            if at.op == "nonempty" and at.a[0].op == "phi" and at.a[0].a[0] == self.lid and at.a[0].a[1] != self.stack_root:
                m.add(at.a[0])
        if len(m) != 1:
            raise Undecided("build_with_metadata", "the map of kept crates was not found")
        self.kept = m.pop()
        self.kept_root = self.kept.a[1]
        self.pkg = pick("fst", (elem(self.packages),), as_node(B(eq(mk("conv", "Kid", field(elem(self.packages), "id")), self.pid))), elem(self.packages))

    def cut_item(self, x):
        """a value as it depends on the crate and feature at hand, however they were taken from the work list"""
        m = {self.pid: mk("sym", "$pid"), self.ft: mk("sym", "$ft")}
        return subst_node(x, m) if isinstance(x, int) else subst(x, m)

    def init_bag(self):
        return bag(self.stack_init, 1, self.norm)

    def state_atom(self, at):
        """does an atom depend on what the walk has done so far"""
        hit = []
        walk(at, lambda y: hit.append(y) if y.op == "phi" and y is not None and not under_item(y, self) else None)
        return bool(hit)

    def in_walk(self, e):
        return any(f.lid == self.lid for f in e.frames)

    def touches(self, e, root):
        """does the event change (a part of) the variable"""
        if e.kind != "mutate" or not e.args:
            return False
        return any(b.op == "phi" and b.a[1] == root for b in bases(e.args[0]))

    def changes(self):
        """changes of the map of kept crates or of the work list inside the walk"""
        return [e for e in self.ev if self.in_walk(e) and e is not self.pop and
                (self.touches(e, self.kept_root) or self.touches(e, self.stack_root)) and e.guard() != 0]


def model(a):
    k = "graph-build"
    if k not in a.cache:
        try:
            a.cache[k] = Build(a)
        except Undecided as ex:
            a.cache[k] = ex
    if isinstance(a.cache[k], Undecided):
        raise a.cache[k]
    a.analysed.add("builder::Builder::build_with_metadata")
    return a.cache[k]


def bases(x, seen=None):
    """the variables a place belongs to"""
    seen = set() if seen is None else seen
    if x.id in seen:
        return
    seen.add(x.id)
    if x.op == "choice":
        for y, _ in alts(x):
            yield from bases(y, seen)
    elif x.op in ("get", "field", "proj", "index", "with", "pwith", "put", "poprest", "rm", "slice", "is"):
        yield from bases(x.a[0], seen)
    elif x.op == "fold":
        yield from bases(x.a[3], seen)
    elif x.op == "coll":
        for p in x.a[1]:
            if p.op == "piece" and len(p.a[0]) == 1 and p.a[2] is p.a[0][0]:
                yield from bases(p.a[0][0].a[0], seen)
    else:
        yield x


def under_item(y, g):
    return False


def mentions_any(n, sub):
    hit = []
    walk(n, lambda y: hit.append(y) if y is sub else None)
    return bool(hit)


def project(n, keep):
    """the strongest condition over the kept atoms that a guard implies"""
    return b_exists(n, [t._avar[at] for at in atoms_in(n) if not keep(at)]) if n > 1 else n


def where(e):
    return e.name


# --------------------------------------------------------------------------- C01
def unsorted(x):
    while x.op == "sorted":
        x = x.a[0]
    return x


def op_in(x, op):
    found = []
    walk(x, lambda y: found.append(y) if y.op == op else None)
    return bool(found)


def ends(g, rep):
    """the work list starts with all roots, and the walk goes on until nothing is left of it"""
    site = "build_with_metadata"
    early = set()
    walk(g.stack_init, lambda y: early.add(y.a[1]) if y.op == "before" and y.a[0] else None)
    src = field(some_val(g.resolve), "nodes")

    def resolved(n):
        return b_and(n, *[atom(at) for at in atoms_in(n) if at.op == "exists" and len(at.a[0]) == 1 and g.norm(unsorted(at.a[0][0].a[0])) is g.norm(src)])
    if any(n and not resolved(n) for n in early):
        rep.bad("all-roots", site, "the loop over the roots is left at one that was not resolved, before the others are on the work list")
    else:
        rep.ok("all-roots", site)
    more = some_node(g.pop.res)
    left = b_and(more, b_not(g.walk.back))
    if not left:
        rep.ok("exhausted", site)
    elif any(taints(at, ("phi", "fold")) for at in atoms_in(left) if at not in set(atoms_in(more))) and not b_and(left, *[b_not(atom(at)) for at in atoms_in(left) if taints(at, ("phi", "fold"))]):
        rep.unk("exhausted", site, "when the walk stops was not recognised")
    else:
        rep.bad("exhausted", site, "the walk stops before the work list is empty if %s" % t.show_node(g.norm(left), 4)[:300])


@rule("C01")
def excluded(a, rep):
    g = model(a)
    m = elem(g.exclude)
    X = exists((m,), as_node(mk("call", "pkgspec::PkgSpec::matches", m, g.pkg)))
    X = g.norm(X)
    ends(g, rep)
    ch = g.changes()
    ins = [e for e in ch if g.touches(e, g.kept_root) and e.args[0] is g.kept]
    if not ins:
        rep.unk("kept", "build_with_metadata", "no insertion into the map of kept crates was found")
        return
    consulted = False
    for e in ch:
        n = g.norm(e.guard())
        ats = [at for at in atoms_in(n) if mentions_any(at, g.exclude)]
        consulted |= bool(ats)
        site = "%s %s" % ("kept crates" if g.touches(e, g.kept_root) else "work list", e.name)
        if b_and(n, X) == 0:
            rep.ok("excluded", site)
        elif any(taints(at, ("phi",)) for at in ats):
            rep.unk("excluded", site, "the model does not interpret the exclusion test")
        elif not ats:
            rep.bad("excluded", site, "an excluded crate is still %s: the condition does not test the exclusion list" % (
                "entered" if g.touches(e, g.kept_root) else "followed"))
        else:
            rep.bad("excluded", site, "an excluded crate is still handled here: the exclusion tested is %s" % show(ats[0], 8))
    for e in ins:
        n0 = cofactor(g.norm(e.guard()), t._avar[atoms_in(X)[0]], 0)
        ats = [at for at in atoms_in(n0) if mentions_any(at, g.exclude)]
        if ats:
            rep.unk("only-excluded", "kept crates", "another test of the exclusion list decides")
        elif n0 == 0:
            rep.bad("only-excluded", "kept crates", "a crate that no spec matches is dropped")
        else:
            rep.ok("only-excluded", "kept crates")
    setter(a, rep, "exclude-setter", BLD, "exclude", "extend")


# --------------------------------------------------------------------------- C02
@rule("C02")
def partition(a, rep):
    g = model(a)
    flt = [e for e in g.ev if e.kind == "call" and e.name.split("::")[-1] == "filtered"]
    add_ = [(e, v, n) for e in g.ev if e.kind == "mutate" and e.name == "add_node" for v, n in alts(e.args[1])
            if v.op == "V" and v.a[:2] == (NODE, "Krate") and b_and(n, e.guard())]
    if not add_:
        rep.unk("nodes", "build_with_metadata", "no crate node is added where the model can see it")
        return
    P = elem(g.packages)
    done = []
    for what, e, val, n in [("filtered", e, e.args[1], 1) for e in flt] + [("node", e, v, n) for e, v, n in add_]:
        gens = [x for f in e.frames for x in f.elems or ()]
        if any(f.kind != "for" for f in e.frames) or len(gens) != 1:
            rep.unk(what, "build_with_metadata", "this is not done once per element of one list")
            return
        src = rebind(gens[0])
        if src is not P:
            (rep.unk if taints(src) else rep.bad)(what, "build_with_metadata", "done once for each of %s instead of each package" % show(src, 5))
            return
        left = [g.r.en.fors[f.lid].exit for f in e.frames if f.lid in g.r.en.fors]
        if any(x for x in left if x is not None):
            n1 = b_or(*[x for x in left if x])
            (rep.unk if taints(B(n1), ("phi",)) else rep.bad)("all", "build_with_metadata", "the loop over the packages is left early if %s" % show_node(n1, 4)[:300])
        cond = g.norm(subst_node(b_and(e.guard(), n), {}))
        if what == "filtered":
            expect(rep, "filtered-package", "build_with_metadata", rebind(val), P)
        else:
            k = dict(zip(val.a[2], val.a[3:]))
            expect(rep, "node-id", "build_with_metadata", rebind(k["id"]), mk("conv", "Kid", field(P, "id")))
            expect(rep, "node-package", "build_with_metadata", unconv(rebind(k["krate"])), P)
        done.append((what, cond))
    fs = [c for w, c in done if w == "filtered"]
    ns = [c for w, c in done if w == "node"]
    if not fs:
        rep.bad("filtered", "build_with_metadata", "packages without a node are never reported")
        return
    F, N = b_or(*fs), b_or(*ns)
    tn = taints(b_or(F, N), ("phi",))
    say = rep.unk if tn else rep.bad
    both = [(x, y) for i, x in enumerate(fs + ns) for y in (fs + ns)[i + 1:] if b_and(x, y)]
    if both:
        say("once", "build_with_metadata", "a package can be handled twice: when %s" % show_node(b_and(*both[0]), 6))
    else:
        rep.ok("once", "build_with_metadata")
    ctx = is_node(g.r.v, RES, "Ok")
    if n_eq(b_or(F, N), ctx):
        rep.ok("every", "build_with_metadata")
    else:
        say("every", "build_with_metadata", "a package is neither a node nor reported when %s" % show_node(b_and(ctx, b_not(b_or(F, N))), 6))
    keep = some_node(mk("get", g.kept, mk("conv", "Kid", field(P, "id"))))
    expect_node(rep, "kept-is-node", "build_with_metadata", N, b_and(ctx, keep), 1, ("phi",))


def unconv(v):
    while v.op in ("conv", "call") and v.a[0] in ("N", "from", "into") or v.op == "call" and str(v.a[0]).startswith(("conv", "from")):
        v = v.a[-1]
    return v


@rule("C02")
def callbacks(a, rep):
    for b in a.p.bodies:
        if b.get("name") != "filtered" or not (b.get("itrait") or "").endswith("OnFilter"):
            continue
        r = a.run(b)
        ty = norm_ty(b["self"])
        calls = [e for e in r.evs("call") if any(x is sym(1) for x in e.args) or any(x.op == "tup" and sym(1) in x.a for x in e.args if isinstance(x, T))]
        if "NoneFilter" in ty:
            continue
        if len(calls) == 1 and calls[0].guard() == 1 and not calls[0].frames:
            rep.ok("callback", ty)
        elif not calls and any(e.kind == "call" for e in r.en.events):
            rep.unk("callback", ty, "the model does not see how the callback is called")
        else:
            rep.bad("callback", ty, "the callback is not called exactly once with the package")


# --------------------------------------------------------------------------- C07
def only_one(n, c):
    """a condition in which tests of all elements of c are tests of the first one, where there is only one"""
    first, last, e = index_at(c, I(0)), index_at(c, t.add(length(c), I(1), -1)), elem(c)
    memo = {}

    def f(at):
        if at in memo:
            return memo[at]
        r = atom(at)
        if at.op == "exists":
            if at.a[0] == (e,):
                r = subst_node(at.a[1], {e: first})
            else:
                r = exists(at.a[0], t.b_compose(at.a[1], f))
        elif at.op == "contains" and at.a[0] is c:
            r = as_node(B(eq(first, at.a[1])))
        elif mentions(at, frozenset([last])):
            r = subst_node(r, {last: first})
        memo[at] = r
        return r
    one = as_node(B(eq(length(c), I(1))))
    return b_or(b_and(one, t.b_compose(n, f)), b_and(b_not(one), n))


@rule("C07")
def roots(a, rep):
    g = model(a)
    bools = [n for n, ty in a.fields(BLD).items() if ty == "bool"]
    if len(bools) != 1:
        raise Undecided("Builder", "no single workspace switch")
    ws = as_node(field(sym(0), bools[0]))
    flt = g.f(r"PathBuf")
    R = some_val(g.resolve)
    root = field(R, "root")
    rk = mk("conv", "Kid", some_val(root))
    wm = elem(g.members)
    wk = mk("conv", "Kid", wm)
    N = elem(field(R, "nodes"))
    nk = mk("conv", "Kid", field(N, "id"))
    P = elem(g.packages)
    pk = mk("conv", "Kid", field(P, "id"))
    F = nonempty(flt)
    single = b_and(some_node(root), b_not(F), b_not(ws))
    # the parent of the only filter, in the form the model has for it
    par = [at.a[0] for (es, v), n in g.init_bag().items() for at in atoms_in(n) if at.op == "is" and at.a[0].op == "call" and at.a[0].a[0] == "parent"]
    norm = g.norm
    first, last = index_at(flt, I(0)), index_at(flt, t.add(length(flt), I(1), -1))
    if par and par[0].a[1] is not last:
        fpar = par[0]
        expect(rep, "workspace-filter", "build_with_metadata", fpar, mk("call", "parent", first))
    else:
        # the parents of all filters: the same as that of the first, where there is only one
        par = [x for (es, v), n in g.init_bag().items() for at in atoms_in(n) for x in calls_of(at) if x.a[0] == "parent"]
        if not par or any(x.a[1] not in (elem(flt), first, last) for x in par):
            rep.unk("workspace-filter", "build_with_metadata", "the test for the workspace manifest was not found")
            return
        rep.ok("workspace-filter", "build_with_metadata")
        fpar = mk("call", "parent", first)
        norm = lambda x: g.norm(only_one(x, flt) if not isinstance(x, T) else all_guards(x, lambda m: only_one(m, flt)))
    whole = b_and(as_node(B(eq(length(flt), I(1)))), some_node(fpar), as_node(B(eq(field(sym(1), "workspace_root"), some_val(fpar)))))
    fp = as_node(B(eq(pk, wk)))
    mp = field(pick("fst", (P,), fp, P), "manifest_path")
    can = mk("call", "canonicalize", mp)
    cans = [x for (es, v), n in g.init_bag().items() for at in atoms_in(n) for x in calls_of(at) if x.a[0] == "canonicalize"]
    if cans:
        can = cans[0]
    path = choice([(proj(can, RES, "Ok", "0"), is_node(can, RES, "Ok")), (mp, b_not(is_node(can, RES, "Ok")))])
    hit = contains(flt, path)
    member = b_or(b_and(b_not(F), b_not(single)), b_and(F, b_or(whole, b_and(exists((P,), fp), as_node(hit) if isinstance(hit, T) else hit))))
    want = []
    for gen, kid, cond in (((), rk, single), ((wm,), wk, member)):
        at = as_node(B(eq(nk, kid)))
        node = pick("fst", (N,), at, N)
        there = exists((N,), at)
        fe = elem(field(node, "features"))
        for gg, ftv in ((gen, NONE), (gen + (fe,), some(mk("idx", fe)))):
            pr = [None, None]
            pr[g.pair[0]], pr[g.pair[1]] = kid, ftv
            v = mk("tup", *pr) if g.item_ty is None else V(g.item_ty[0], g.item_ty[1], g.pair[2], *pr)
            want.append(piece(gg, b_and(cond, there), v))
    ctx = some_node(g.resolve)
    expect_bag(rep, "roots", "build_with_metadata", g.stack_init, coll("vec", want), ctx, norm)
    # whether a crate counts as a root
    isroot = b_or(b_and(single, as_node(B(eq(rk, g.pid)))), exists((wm,), b_and(member, as_node(B(eq(wk, g.pid))))))
    for e in g.changes():
        if e.args[0] is not g.kept or len(e.args) < 3:
            continue
        for v, n in alts(e.args[2]):
            if v.op != "V":
                continue
            bs = [x for x in v.a[3:] if x.op == "b" and x.a[0] > 1 or x.op == "exists" or x.op == "contains"]
            if len(bs) != 1:
                rep.unk("is-root", "build_with_metadata", "the mark of a root was not found")
                continue
            expect_node(rep, "is-root", "build_with_metadata", norm(as_node(bs[0])), norm(isroot), b_and(ctx, n), ("phi",))
    setter(a, rep, "workspace-setter", BLD, "workspace", "set")
    filter_setter(a, rep)


def filter_setter(a, rep):
    """paths of workspace crates are added, as manifests, canonical where that is possible"""
    site = "Builder::include_workspace_crates"
    r = a.run(a.method(BLD, "include_workspace_crates"))
    f = a.field_by_type(BLD, r"PathBuf")
    h = r.heap(0)
    ch = [x for x in a.fields(BLD) if field(h, x) is not field(sym(0), x)]
    if ch != [f]:
        (rep.unk if taints(h) else rep.bad)("filter-setter", site, "changes %s" % ch)
        return
    old, p = field(sym(0), f), elem(sym(1))
    cans = {x for x in calls_of(field(h, f)) if x.a[0] == "canonicalize"}
    can = cans.pop() if len(cans) == 1 else mk("call", "canonicalize", p)
    M = S("Cargo.toml")

    def last(x):
        fn = mk("call", "file_name", x)
        return b_and(some_node(fn), as_node(B(eq(some_val(fn), M))))
    got = field(h, f)
    forms = []
    for test in (lambda x: as_node(mk("call", "path_ends_with", x, M)), last):
        al = []
        for x, n in ((proj(can, RES, "Ok", "0"), is_node(can, RES, "Ok")), (p, b_not(is_node(can, RES, "Ok")))):
            al += [(x, b_and(n, test(x))), (mk("call", "join", x, M), b_and(n, b_not(test(x))))]
        forms.append(coll("vec", [piece((elem(old),), 1, elem(old)), piece((p,), 1, choice(al))]))
    want = next((w for w in forms if bag(w) == bag(got)), forms[0])
    expect_bag(rep, "filter-setter", site, got, want)


# --------------------------------------------------------------------------- C13
@rule("C13")
def failures(a, rep):
    g = model(a)
    E = "errors::Error" if a.adt("errors::Error") else "Error"
    v = g.r.v
    have = some_node(g.resolve)
    some_crate = nonempty(g.kept)
    bad = is_node(v, RES, "Err")
    err_ = proj(v, RES, "Err", "0")
    expect_node(rep, "no-resolve", "build_with_metadata", is_node(err_, E, "NoResolveGraph"), b_not(have), b_not(have), ("phi",))
    expect_node(rep, "no-roots", "build_with_metadata", b_and(bad, is_node(err_, E, "NoRootKrates")), b_not(some_crate), have, ("phi",))
    expect_node(rep, "only-these", "build_with_metadata", bad, b_or(b_not(have), b_not(some_crate)), 1, ("phi",))
    # nothing in the map before the walk
    init = g.walk.init.get(g.kept_root)
    for c in g.kept.a[2]:
        init = get_comp(init, c)
    if init.op == "coll" and not init.a[1]:
        rep.ok("starts-empty", "build_with_metadata")
    else:
        rep.bad("starts-empty", "build_with_metadata", "the map of kept crates starts with %s" % show(init, 4))
    b = a.method(BLD, "build")
    r = a.run(b, opaque=[r"::exec$", r"build_with_metadata$"])
    ex = [e for e in r.evs("call") if e.name.endswith("::exec")]
    bm = [e for e in r.evs("call") if e.name.endswith("build_with_metadata")]
    if len(ex) != 1 or len(bm) != 1:
        rep.unk("build", "Builder::build", "the command or the construction is not called once")
        return
    x = ex[0].res
    failed = is_node(x, RES, "Err")
    expect(rep, "command-error", "Builder::build", r.v, V(RES, "Err", ("0",), V(E, "Metadata", ("0",), proj(x, RES, "Err", "0"))), failed)
    expect(rep, "passed-on", "Builder::build", r.v, bm[0].res, b_not(failed))
    expect(rep, "same-metadata", "Builder::build", bm[0].args[1], proj(x, RES, "Ok", "0"), b_not(failed))
    expect(rep, "same-filter", "Builder::build", bm[0].args[2], sym(2), b_not(failed))
    expect(rep, "same-builder", "Builder::build", bm[0].args[0], sym(0), b_not(failed))
