"""Index information (C34)"""
from ..ctx import rule
from ..lib import *
from .build import *
from .cmdr import changed
from .safety import calls as call_graph

CRATES_IO = "registry+https://github.com/rust-lang/crates.io-index"
PKG = "cm::Package"


def fixers(a):
    """functions that are given a package to change"""
    r = []
    for b in a.p.bodies:
        if b["kind"] == "Closure" or "{closure" in b["path"]:
            continue
        ps = [a.p.types[p["ty"]] for p in b.get("params") or []]
        m = [i for i, p in enumerate(ps) if p.get("mut") and norm_ty(p["s"].replace("&mut ", "")).endswith("Package")]
        c = [i for i, p in enumerate(ps) if "CachingIndex" in p["s"]]
        if m and c:
            r.append((b, c[0], m[0]))
    return r


def added(a, idx, pkg):
    """(condition, package with the features of the index)"""
    src = field(pkg, "source")
    cache = field(idx, a.field_by_type("builder::index::CachingIndex", r"BTreeMap"))
    name, version = field(pkg, "name"), field(pkg, "version")
    fs = field(pkg, "features")
    ent = map_get(cache, name)
    ik = some_val(ent)
    vs = elem(field(some_val(ik), "versions"))
    hit = as_node(B(eq(field(vs, "version"), version)))
    gate = b_and(some_node(src), as_node(B(eq(field(some_val(src), "repr"), S(CRATES_IO)))), some_node(ent), some_node(ik), exists((vs,), hit))
    e = elem(field(pick("fst", (vs,), hit, vs), "features"))
    absent = b_not(some_node(map_get(fs, field(e, "0"))))
    m1 = t.map_grow("mapadd", fs, [piece((e,), absent, mk("tup", field(e, "0"), field(e, "1")))])
    e1 = elem(m1)
    f = elem(field(e1, "1"))
    plain = b_not(b_or(atom(mk("call", "starts_with", f, S("dep:"))), some_node(mk("call", "find", f, S("?/"))), some_node(mk("call", "find", f, S("/")))))
    dep = coll("vec", [piece((), 1, fmt("dep:", f))])
    m2 = t.map_grow("mapadd", m1, [piece((e1, f), b_and(plain, b_not(some_node(map_get(m1, f)))), mk("tup", f, dep))])
    return gate, set_comp(pkg, "features", m2)


def fmt(*parts):
    from ..stdlib import fmt_template
    return fmt_template([S(p) if isinstance(p, str) else p for p in parts])


@rule("C34")
def fix_features(a, rep):
    fx = fixers(a)
    if not fx:
        raise Undecided("fix_features", "no function that adds the features of the index to a package")
    for b, ci, pi in fx:
        r = a.run(b)
        gate, new = added(a, sym(ci), sym(pi))
        site = b["name"]
        got = r.heap(pi)
        expect(rep, "features-added", site, got, new, gate)
        expect(rep, "untouched", site, got, sym(pi), b_not(gate))
        existing(rep, site, r, sym(pi))
        no_panics(rep, "no-panic", site, r)


def existing(rep, site, r, pkg):
    """nothing but the features of the package is changed, and none that is there already"""
    for e in r.en.events:
        if not e.guard() or not e.places or not e.places[0] or not (e.kind == "mutate" or e.name == "assign"):
            continue
        root, path = e.places[0]
        if root != ("H", pkg):
            continue
        if not path or path[0] != "features":
            rep.bad("only-features", site, "%s changes %s of the package" % (e.name, ".".join(str(x) for x in path) or "all"))
            continue
        if e.name in ("remove", "retain", "clear", "pop_first", "pop_last", "retain_mut", "split_off", "map_remove"):
            rep.bad("existing-kept", site, "features are removed by %s" % e.name)
            continue
        ks = [x[1] for x in path[1:2] if isinstance(x, tuple) and x[0] == "k"]
        below = bool(ks)
        if not ks and e.name == "map_insert" and len(path) == 1 and len(e.args) > 1:
            ks = [e.args[1]]
        g = e.guard()
        hit = [at for at in atoms_in(g) if at.op == "is" and at.a[2] == "Some" and at.a[0].op == "get" and ks and at.a[0].a[1] is ks[0]]
        if any(b_and(g, atom(at)) for at in hit):
            rep.bad("existing-kept", site, "%s changes the values of a feature the package already has" % e.name)
        elif below and not hit and not any(tests_key(at, ks[0]) for at in atoms_in(g)):
            rep.bad("existing-kept", site, "%s changes the values of a feature, whether the package already has it or not" % e.name)
        else:
            rep.ok("existing-kept", site)


def tests_key(at, k):
    """a condition that says something about a key, and not only about what is stored under it"""
    found = []

    def go(x):
        if x is k:
            found.append(x)
        elif x.op == "proj" and x.a[0].op == "get" and x.a[0].a[1] is k:
            pass
        else:
            for y in x.a:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        go(z)
    go(at)
    return bool(found)


def base(x):
    """where a value is taken from, without the conditions it was chosen by"""
    while True:
        if x.op in ("field", "proj", "at", "elem", "sorted", "slice"):
            x = x.a[0]
        elif x.op in ("fst", "lst"):
            x = x.a[0][0].a[0]
        else:
            return x


def fixed_anywhere(a, b, fx):
    """is a function that adds the features of the index called by the build at all"""
    seen = call_graph(a).reach([b["did"]])
    return any(x["did"] in seen for x, _, _ in fx)


def configured(a, rep):
    """the function that opens the index is the one that is given"""
    site = "Builder::with_crates_io_index"
    r = a.run(a.method(BLD, "with_crates_io_index"))
    f = a.field_by_type(BLD, r"BuildIndexCache|dyn")
    ch = changed(a, BLD, r)
    if set(ch) - {f}:
        (rep.unk if taints(r.heap(0)) else rep.bad)("index-setter", site, "changes %s" % sorted(ch))
        return
    expect(rep, "index-setter", site, field(r.heap(0), f), V(OPT, "Some", ("0",), sym(1)))


@rule("C34")
def all_packages(a, rep):
    """with an index, every package goes through it once before anything uses the packages"""
    fx = fixers(a)
    if not fx:
        raise Undecided("fix_features", "no function that adds the features of the index to a package")
    names = {b["path"] for b, _, _ in fx}
    b = a.method(BLD, "build_with_metadata")
    r = a.run(b, opaque=OPQ + [re.escape(n) + "$" for n in names] + [r"CachingIndex.*::new$"])
    calls = [e for e in r.evs("call") if e.name in names]
    configured(a, rep)
    if len(calls) != 1:
        if not fixed_anywhere(a, b, fx):
            rep.bad("every-package", "build_with_metadata", "nothing that is reached from here adds the features of the index to a package")
        else:
            rep.unk("every-package", "build_with_metadata", "no single call that adds the features of the index")
        return
    e = calls[0]
    _, ci, pi = fx[[x[0]["path"] for x in fx].index(e.name)]
    pk = elem(field(sym(1), "packages"))
    idx = field(sym(0), a.field_by_type(BLD, r"BuildIndexCache|dyn"))
    fixed = coll("vec", [piece([x for f in e.frames for x in f.elems or ()], e.guard(), e.args[pi])])
    resolve = some_node(field(sym(1), "resolve"))
    expect_bag(rep, "every-package", "build_with_metadata", fixed, coll("vec", [piece((pk,), b_and(resolve, some_node(idx)), pk)]))
    news = [x for x in r.evs("call") if x.name.endswith("CachingIndex::new")]
    if len(news) != 1:
        rep.unk("index-of-names", "build_with_metadata", "no single construction of the index cache")
    else:
        n = news[0]
        expect(rep, "index-used", "build_with_metadata", e.args[ci], n.res)
        expect(rep, "index-used", "configuration", n.args[0], some_val(idx))
        expect_bag(rep, "index-of-names", "build_with_metadata", n.args[1], coll("set", [piece((pk,), 1, field(pk, "name"))]))
    # nothing has looked at features before
    early = []
    for x in r.en.events[:r.en.events.index(e)]:
        for y in x.args:
            walk(y, lambda z: early.append(x) if z.op == "field" and z.a[1] == "features" and z.a[0].op == "elem" else None)
    rep.check(not early, "before-use", "build_with_metadata", "features are used before the index corrected them: %s" % (early[:1],))
    # afterwards the corrected packages are used
    seen = set()

    def note(y):
        walk(y, lambda z: seen.add(z) if z.op == "field" and z.a[1] == "features" else None)
    for x in r.en.events[r.en.events.index(e) + 1:]:
        for y in x.args:
            note(y)
        for at in atoms_in(x.guard()):
            note(at)
    used, stale = [], []
    for z in seen:
        ops = set()
        walk(base(z), lambda y: ops.add("eff" if y.op == "eff" and y.a[0] == e.name else "pkgs" if y is pk.a[0] else ""))
        if "pkgs" in ops:
            (used if "eff" in ops else stale).append(z)
    rep.check(used and not stale, "in-use", "build_with_metadata", "the features used are not those corrected by the index: %s" % show(stale[0], 5) if stale else "features of packages are not used")
    # and the index cache is what the configured function returns for the names
    c = a.method("builder::index::CachingIndex", "new")
    rc = a.run(c)
    cf = a.field_by_type("builder::index::CachingIndex", r"BTreeMap")
    applied = [x for x in rc.evs("call") if x.args and x.args[0] is sym(0) and x.args[1:] and (x.args[1] is sym(1) or x.args[1].op == "tup" and x.args[1].a == (sym(1),))]
    if len(applied) != 1:
        rep.unk("index-cache", "CachingIndex::new", "no single call of the function that builds the cache")
    else:
        expect(rep, "index-cache", "CachingIndex::new", field(rc.v, cf), applied[0].res)
