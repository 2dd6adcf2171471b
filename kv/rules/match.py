"""Graph construction: which declaration a resolved dependency is matched to, and how names are compared (C06, C15)"""
import re
from ..ctx import rule
from ..lib import *
from .. import terms as t
from ..gram import Word, Eval, Unclear, text
from .build import *
from .graphs import model, project, bases, DEPKIND
from .features import spots


def chars(x):
    if x.op == "choice":
        return choice([(chars(y), m) for y, m in alts(x)])
    return choice([(mk("call", "chars", v), n) for v, n in alts(x)]) if x.op == "choice" else mk("call", "chars", x)


def dash_eq(res, human):
    """equal, where `-` in the manifest may stand for `_` in the resolved name"""
    z = elem(mk("zip", chars(res), chars(human)))
    x, y = field(z, "0"), field(z, "1")
    differ = b_and(b_not(as_node(B(eq(x, y)))), b_not(b_and(as_node(B(eq(C_("_"), x))), as_node(B(eq(C_("-"), y))))))
    return b_and(as_node(B(eq(length(res), length(human)))), b_not(exists((z,), differ)))


def C_(c):
    return mk("c", "char", c)


def parts_of(s):
    """the resolved dependency a recorded edge belongs to: name, package id, version"""
    g = s.g
    nd = s.dk.a[0].a[0]       # elem(field(NODEDEP, kinds))
    if not (s.dk.op == "elem" and s.dk.a[0].op == "field"):
        raise Undecided("build_with_metadata", "the resolved dependency was not found")
    recs = []
    walk(s.source, lambda y: recs.append(y) if y.op == "V" and s.dk.a[0].a[1] in y.a[2] else None)
    if not recs:
        raise Undecided("build_with_metadata", "the resolved dependency was not found")
    ty = g.a.adt(recs[0].a[0])["v"][0]["f"]
    byty = {}
    for f in ty:
        byty.setdefault("name" if re.search("String$|str$", f["ty"]) else "pkg" if re.search(r"\bKid$", f["ty"]) else "version" if "Version" in f["ty"] else "", []).append(f["n"])
    if any(len(byty.get(k, ())) != 1 for k in ("name", "pkg", "version")):
        raise Undecided("build_with_metadata", "the parts of a resolved dependency have changed")
    return nd, {k: byty[k][0] for k in ("name", "pkg", "version")}, recs


@rule("C06")
def declaration(a, rep):
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        d = s.decl_term
        if d is None or d.op not in ("fst", "lst") or len(d.a[0]) != 1:
            rep.unk("declaration", site, "the declaration of the dependency was not found")
            continue
        e = d.a[0][0]
        nd, f, recs = parts_of(s)
        if g.norm(e.a[0]) is not g.norm(field(g.pkg, "dependencies")):
            (rep.unk if taints(e.a[0], ("phi", "fold")) else rep.bad)("declaration", site, "the declaration is looked for in %s" % show(e.a[0], 6))
            continue
        M = d.a[1]
        same = {}
        if keyed(s, nd, f["pkg"]):
            same = {field(nd, f["pkg"]): s.key}
            M = subst_node(M, same)
        want = subst_node(base(s, e, nd, f), same)
        cnt = [at for at in atoms_in(M) if any(y.op == "count" for y in at.a if isinstance(y, T))]
        for at in cnt:
            for y in at.a:
                if isinstance(y, T) and y.op == "count" and len(y.a[0]) == 1 and g.norm(y.a[0][0].a[0]) is g.norm(e.a[0]):
                    x = y.a[0][0]
                    w = subst_node(base(s, x, nd, f), same)
                    verdict(rep, "candidates", site, y.a[1], w, "is counted as a candidate")
        several = [at for at in cnt if at.op == "gt" and at.a[1] == 1]
        odd_ = [at for at in cnt if at not in several]
        any_ = [at for at in atoms_in(M) if at.op == "exists" and len(at.a[0]) == 1 and at.a[0][0].op == "elem" and g.norm(at.a[0][0].a[0]) is g.norm(e.a[0]) and at.a[1] == subst_node(base(s, at.a[0][0], nd, f), same)]
        if odd_ or any_ and not several:
            at = (odd_ or any_)[0]
            if any_ or at.op == "gt":
                rep.bad("declaration", site, "candidates are told apart by source if there are more than %d of them, not if there is more than one" % (0 if any_ and not odd_ else at.a[1]))
            else:
                rep.unk("declaration", site, "the test for several candidates was not recognised: %s" % show(at, 2))
            continue
        if len(several) > 1:
            rep.unk("declaration", site, "the test for several candidates was not recognised")
            continue
        if several:
            many = atom(several[0])
            verdict(rep, "declaration", site, restrict(b_and(M, b_not(many)), b_not(many)), want, "is used")
            sources(rep, site, s, e, same.get(field(nd, f["pkg"]), field(nd, f["pkg"])), want, restrict(b_and(M, many), many))
        else:
            verdict(rep, "declaration", site, M, want, "is used")
        # the declaration found is the one the settings are taken from, whatever it is
        names(rep, g, s, recs, f)


def keyed(s, nd, pkg):
    """every entry of the map of dependencies is kept under the package id of its resolved dependency"""
    if not (nd.op == "field" and nd.a[0].op == "field" and nd.a[0].a[0] is s.entry and nd.a[0].a[1] == "1"):
        return False
    f = nd.a[1]

    def good(v, k):
        if v.op == "choice":
            return all(good(y, k) for y, _ in alts(v))
        if v.op in ("tup", "V"):
            return field(field(v, f), pkg) is k
        if v.op == "with":
            return v.a[1] != f and good(v.a[0], k)
        if v.op == "proj" and v.a[1] == "Some" and v.a[0].op == "get":
            return v.a[0].a[1] is k
        return False

    def ok(m):
        if m.op == "choice":
            return all(ok(y) for y, _ in alts(m))
        if m.op == "put":
            return ok(m.a[0]) and good(m.a[2], m.a[1])
        if m.op == "phi":
            return True
        if m.op == "fold":
            return ok(m.a[4]) and ok(m.a[5]) if len(m.a) > 5 else False
        if m.op in ("mapext", "mapadd"):
            return all(ok(x) if not pairs_of(x) else pairs_ok(x) for x in m.a if isinstance(x, T))
        if m.op == "coll":
            return pairs_ok(m)
        return False

    def pairs_of(x):
        return x.op == "coll" and any(p.op == "piece" for p in x.a[1])

    def pairs_ok(x):
        return all(p.op == "piece" and p.a[2].op == "tup" and good(p.a[2].a[1], p.a[2].a[0]) for p in x.a[1])
    return ok(s.source)


def verdict(rep, rule_, site, got, want, what):
    if n_eq(got, want):
        rep.ok(rule_, site)
        return
    tn = taints(got, ("phi", "fold"))
    tn = tn if [at for at in atoms_in(got) if at not in set(atoms_in(want)) and taints(at, ("phi", "fold"))] else []
    over, under = b_and(got, b_not(want)), b_and(want, b_not(got))
    say = rep.unk if tn else rep.bad
    if over:
        say(rule_, site, "a declaration %s although it does not qualify: if %s" % (what, show_node(brief(over), 6)))
    else:
        say(rule_, site, "a declaration that qualifies is not used: if %s" % show_node(brief(under), 6))


def brief(n):
    return n


def base(s, e, nd, f, parts=False):
    name, pkg, ver = (field(nd, f[k]) for k in ("name", "pkg", "version"))
    ren = field(e, "rename")
    dn = ite(some_node(ren), some_val(ren), field(e, "name"))
    kind = b_or(*[b_and(is_node(field(s.dk, s.kind.a[1]), DEPKIND, k), is_node(field(e, "kind"), "cm::DependencyKind", m))
                  for k, m in (("Normal", "Normal"), ("Build", "Build"), ("Dev", "Development"))])
    kn = mk("call", "Kid::name", s.key)
    pn = mk("call", "Kid::name", pkg)
    nm = b_or(as_node(B(eq(kn, dn))), dash_eq(name, dn), dash_eq(pn, dn))
    req = field(e, "req")
    pre = mk("call", "is_empty", field(ver, "pre"))
    vm = b_or(b_and(b_not(atom(pre)), b_not(nonempty(field(req, "comparators")))), atom(mk("call", "semver_matches", req, ver)))
    c = [x for x in s.f if s.f[x] is s.cfg][0]
    cfgs = set()
    walk(s.cfg, lambda x: cfgs.add(x.a[0]) if x.op == "proj" and x.a[1] == "Some" and x.a[0].op == "field" and x.a[0].a[0] is s.dk else None)
    if len(cfgs) != 1:
        raise Undecided("build_with_metadata", "the target of the dependency was not found")
    c = cfgs.pop()
    tg = field(e, "target")
    te = b_or(b_and(b_not(some_node(c)), b_not(some_node(tg))),
              b_and(some_node(c), some_node(tg), as_node(B(eq(field(some_val(c), "inner"), some_val(tg))))))
    if parts:
        return nm, b_and(kind, vm, te)
    return b_and(kind, nm, vm, te)


def sources(rep, site, s, e, pkg, want, M):
    """several declarations qualify: the source decides"""
    ps = mk("call", "Kid::source", pkg)
    src, path = field(e, "source"), field(e, "path")
    ds = some_val(src)
    st = lambda x, p: atom(mk("call", "starts_with", x, S(p)))
    git = b_and(st(ds, "git+"), st(ps, "git+"))
    eqs = as_node(B(eq(ds, ps)))
    dg, pg = slice_(ds, I(4), length(ds)), slice_(ps, I(4), length(ps))
    full = as_node(B(eq(dg, pg)))
    cuts = [at for at in atoms_in(M) if at.op == "eq" and pg in at.a and dg not in at.a]
    cut = b_or(*[atom(at) for at in cuts])
    rf = b_or(*[atom(at) for at in atoms_in(M) if at.op == "is" and at.a[0].op in ("call", "rfind") and "rfind" in show(at.a[0], 1)])
    hs, hp = some_node(src), some_node(path)
    if b_and(M, b_not(want)):
        rep.bad("source", site, "a declaration is used although it does not qualify: if %s" % show_node(b_and(M, b_not(want)), 6))
        return
    r = [("no source", b_and(b_not(hs), b_not(hp)), 0, 0),
         ("registry or path source", b_and(hs, b_not(git)), eqs, eqs),
         ("git source", b_and(hs, git), b_and(full, b_or(b_not(rf), cut)), b_or(full, b_and(rf, cut))),
         ("local path", b_and(b_not(hs), hp, atom(mk("call", "path_starts_with", some_val(path), S("/")))),) + (None, None)]
    # in the opaque format the source of a dependency can end in a revision, which the source of the package does not have
    exact = b_or(b_and(full, b_not(rf)), b_and(rf, cut))
    for what, form in (("git source of an opaque id", ("name", 1)), ("git source of a stable id", ())):
        n = in_format(s.g, M, OPAQUE if form else STABLE)
        if n is not None:
            r.append((what, b_and(hs, git), exact if form else r[2][2], exact if form else r[2][3], n))
    for what, care, lo, hi, *n in r:
        m = b_and(n[0] if n else M, care)
        if lo is None:
            x = [at for at in atoms_in(m) if at.op == "eq" and some_val(path) in at.a]
            pf = st(ps, "path+file://")
            if not x and b_and(m, pf) and all(at.op in ("call", "is", "path_starts_with") for at in atoms_in(m) if mentions(at, {some_val(path)})):
                rep.bad("source", site, "%s: it is not compared for equality" % what)
                continue
            if len(x) != 1:
                rep.unk("source", site, "the comparison of a local path was not recognised")
                continue
            o = [y for y in x[0].a if y is not some_val(path)][0]
            if o is not slice_(ps, I(12), length(ps)):
                rep.unk("source", site, "the comparison of a local path was not recognised")
                continue
            lo = hi = b_and(pf, atom(x[0]))
        lo, hi = b_and(want, care, lo), b_and(want, care, hi)
        if not implies(m, hi):
            (rep.unk if odd(m, hi) and not surely(m, hi) else rep.bad)("source", site, "%s: a declaration with another source is used if %s" % (what, show_node(b_and(m, b_not(hi)), 6)))
        elif not implies(lo, m):
            (rep.unk if odd(m, lo) and not (b_and(lo, b_not(m)) and surely(b_not(m), b_not(lo))) else rep.bad)("source", site, "%s: a declaration with the same source is not used if %s" % (what, show_node(b_and(lo, b_not(m)), 6)))
        else:
            rep.ok("source", site, what)
    windows(rep, site, s, M, want, ps, some_val(path), b_and(b_not(hs), hp, b_not(atom(mk("call", "path_starts_with", some_val(path), S("/")))), st(ps, "path+file://")))


OPAQUE = text(Word("name", "-_"), " ", Word("version", ".-+"), " (", Word("kind"), "+https://", Word("url", "/.-_?=&"), ")")
STABLE = text(Word("kind"), "+https://", Word("url", "/.-_?=&%"), "#", Word("name", "-_"), "@", Word("version", ".-+"))


def in_format(g, n, form):
    """a condition when the ids of the metadata have a format; None if its tests of the format are not understood"""
    nodes = field(some_val(g.resolve), "nodes")
    ids, at_format = {}, []
    for at in atoms_in(n):
        found = []
        walk(at, lambda y: found.append(y) if y.op == "field" and y.a[1] == "repr" and y.a[0].op == "field" and y.a[0].a[1] == "id" and
             y.a[0].a[0].op in ("at", "elem") and y.a[0].a[0].a[0] is nodes else None)
        if not mentions(at, {g.packages}) and mentions(at, {nodes}) and not phis(atom(at)):
            at_format.append(at)
            ids.update((y, form) for y in found)
    ev, known = Eval(ids), 0
    for at in at_format:
        if at.op == "nonempty" and at.a[0] is nodes:
            n = cofactor(n, t._avar[at], 1)
            continue
        try:
            n = cofactor(n, t._avar[at], 1 if ev.node(atom(at)) else 0)
            known += 1
        except Unclear:
            return None
    return n if known else None


def windows(rep, site, s, M, want, ps, path, care):
    """a path that is not rooted is compared component by component"""
    m = b_and(M, care)
    for L in s.g.r.en.loops.values():
        if not any(mentions(at, set(L.phi.values())) for at in atoms_in(m)):
            continue
        side = {}
        for root, v in L.init.items():
            if v.op in ("call", "components", "split") and len(L.init) == 2:
                nm = v.a[0] if v.op == "call" else v.op
                x = [y for y in v.a if not isinstance(y, str)]
                if nm == "components" and x[0].op == "slice" and x[0].a[1] is I(13):
                    side["pkg"] = root
                elif nm == "split" and x[1:] == [S("\\")]:
                    side["path"] = root
        if len(side) == 2:
            break
    else:
        rep.unk("source", site, "the comparison of the components of a path was not recognised")
        return
    A, B_ = (L.phi[side[x]] for x in ("pkg", "path"))
    nA, nB = nonempty(A), nonempty(B_)
    same = as_node(B(eq(mk("at", A, I(0)), mk("at", B_, I(0)))))
    for x in (A, B_):
        nx = L.next[x.a[1]]
        if restrict(b_not(atom(mk("same", nx, slice_(x, I(1), length(x))))), L.back) and nx is not slice_(x, I(1), length(x)):
            rep.unk("source", site, "how the components of a path are gone through was not recognised")
            return
    bad = b_and(L.back, b_not(b_and(nA, nB, same)))
    if bad:
        rep.bad("source", site, "local path: the comparison of components goes on after two that differ if %s" % show_node(bad, 6))
        return
    hi = b_and(want, care, b_not(nA), b_not(nB))
    if not implies(m, hi):
        rep.bad("source", site, "local path: a declaration with another path is used if %s" % show_node(b_and(m, b_not(hi)), 6))
    elif not implies(hi, m):
        rep.bad("source", site, "local path: a declaration with the same path is not used if %s" % show_node(b_and(hi, b_not(m)), 6))
    elif not implies(b_and(nA, nB, same), b_or(L.back, 0)) and not implies(b_and(care, nA, nB, same), L.back):
        rep.unk("source", site, "the comparison of components stops early")
    else:
        rep.ok("source", site, "local path, by components")


def phis(n):
    out = set()
    for at in atoms_in(n):
        walk(at, lambda y: out.add(y) if y.op == "phi" else None)
    return out


def unread(m, w):
    """atoms of m that the model does not interpret (the state that w speaks of is known)"""
    ws, ph = set(atoms_in(w)), phis(w)
    return [at for at in atoms_in(m) if at not in ws and (taints(at, ("fold", "phi")) or phis(atom(at)) - ph)]


def odd(m, w):
    return bool(unread(m, w))


def surely(m, w):
    """the cases of `m and not w` that do not depend on a test the model does not interpret"""
    return b_not(b_exists(b_not(b_and(m, b_not(w))), [t._avar[at] for at in unread(m, w)]))


def names(rep, g, s, recs, f):
    """the resolved dependency has the name, id and version of the metadata"""
    site = "resolved dependency"
    for rec in recs:
        v = dict(zip(rec.a[2], rec.a[3:]))
        nm, pk = v[f["name"]], v[f["pkg"]]
        if not (nm.op == "field" and nm.a[1] == "name"):
            rep.unk("resolved", site, "where the name of a resolved dependency comes from was not recognised")
            continue
        x = nm.a[0]
        expect(rep, "resolved-id", site, pk, mk("conv", "Kid", field(x, "pkg")))
        ver = v[f["version"]]
        w = mk("call", "Kid::version", pk)
        if ver.op == "proj" and ver.a[1] == "Ok" and mentions(ver, {w}):
            src = ver.a[0]
            if src.a and src.a[-1] is w:
                rep.ok("resolved-version", site)
                continue
        (rep.unk if taints(ver) or mentions(ver, {w}) else rep.bad)("resolved-version", site, "the version of a resolved dependency is %s" % show(ver, 6))
