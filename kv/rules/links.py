"""Graph construction: the edges and nodes that are added once the crates are known (C09, C10, C14, C20)"""
import re
from ..ctx import rule, Part
from ..lib import *
from .. import terms as t
from ..gram import Word, Eval, Unclear, text
from .build import *
from .graphs import model, project, bases
from .features import spots, resolved_node, pushed, base_first

ND = "Node"


def weight(e):
    return field(e, "weight")


def krate_of(x, f):
    return proj(x, ND, "Krate", f)


def other(at, mine):
    """the side of an equality that is not `mine`"""
    if at.op != "eq":
        return None
    x, y = at.a
    return y if x is mine else x if y is mine else None


def positions(x):
    """an index into the whole node list: (picked generator, condition), whatever slice it was searched in"""
    if x.op == "lin":
        parts = [p for p, c in lin_parts(x)[1].items() if c == 1 and p.op == "idx"]
        if len(parts) != 1 or lin_parts(x)[0] != 0:
            return None
        x, rest = parts[0], [p for p in lin_parts(x)[1] if p is not parts[0]]
    else:
        rest = []
    if x.op != "idx" or x.a[0].op != "fst" or len(x.a[0].a[0]) != 1:
        return None
    e = x.a[0].a[0][0]
    src = e.a[0]
    if src.op == "slice":
        lo = src.a[1]
        if rest != ([] if lo is I(0) else [lo]) and not (lo.op == "lin" and not rest):
            return None
        src = src.a[0]
    elif rest:
        return None
    if not (src.op == "call" and src.a[0] == "raw_nodes"):
        return None
    return e, x.a[0].a[1], src.a[1]


def crate_at(x):
    """(id,) of the crate an index belongs to"""
    p = positions(x)
    if p is None:
        return None
    e, n, gr = p
    w = weight(e)
    kid = [other(at, krate_of(w, "id")) for at in atoms_in(n) if other(at, krate_of(w, "id")) is not None]
    if len(kid) == 1 and n_eq(n, b_and(is_node(w, ND, "Krate"), as_node(B(eq(kid[0], krate_of(w, "id")))))):
        return kid[0]
    return None


def feature_at(x):
    """(crate id, name) of the feature node an index belongs to"""
    if x.op == "node_id" and x.a[1].op == "V" and x.a[1].a[1] == "Feature":
        f = dict(zip(x.a[1].a[2], x.a[1].a[3:]))
        k = crate_at(f["krate_index"])
        return None if k is None else (k, f["name"])
    p = positions(x)
    if p is None:
        return None
    e, n, gr = p
    w = weight(e)
    nm = proj(w, ND, "Feature", "name")
    ow = [at.a[0] for at in atoms_in(n) if at.op == "is" and at.a[2] == "Krate" and at.a[0] is not w]
    if len(ow) != 1:
        return None
    kid = [other(at, krate_of(ow[0], "id")) for at in atoms_in(n) if other(at, krate_of(ow[0], "id")) is not None]
    name = [other(at, nm) for at in atoms_in(n) if other(at, nm) is not None]
    if len(kid) != 1 or len(name) != 1 or not mentions(ow[0], {proj(w, ND, "Feature", "krate_index")}):
        return None
    want = b_and(is_node(w, ND, "Feature"), is_node(ow[0], ND, "Krate"), as_node(B(eq(kid[0], krate_of(ow[0], "id")))), as_node(B(eq(name[0], nm))))
    return (kid[0], name[0]) if n_eq(n, want) else None


class Link:
    """an edge that is added to the graph, or a node"""

    def __init__(self, g, e):
        self.e, self.g = e, g
        self.n = e.guard()


def links(g, name):
    return [Link(g, e) for e in g.ev if e.kind == "mutate" and e.name == name and e.guard()]


def edge_links(g):
    """(link, source, target, variant, fields, condition) of every edge that is added"""
    out = []
    for l in links(g, "add_edge"):
        gr, src, dst, w = l.e.args[:4]
        for v, n in alts(w):
            while v.op in ("conv", "call") and v.op == "conv":
                v = v.a[-1]
            if v.op != "V":
                raise Undecided("build_with_metadata", "the kind of an added edge was not recognised")
            if b_and(l.n, n):
                out.append((l, src, dst, v.a[1], dict(zip(v.a[2], v.a[3:])), b_and(l.n, n)))
    return out


def owner_entry(g, e):
    """what the crate at hand depends on: the loop over the dependencies recorded for it"""
    for f in e.frames:
        for x in f.elems or ():
            c = x.a[0]
            if c.op == "field" and c.a[0].op == "proj" and c.a[0].a[0].op == "get" and any(b.op == "phi" and b.a[1] == g.kept_root for b in bases(c)):
                return x, c.a[0].a[0].a[1]
    return None, None


@rule("C09")
def dependency_edges(a, rep):
    """edges to dependencies: one per recorded edge, or one per feature of it"""
    g = model(a)
    s0 = spots(g)[0]
    fs = s0.f
    ET = s0.v.a[0]
    kf = [f for f in fs if fs[f] is s0.kind][0]
    cf = [f for f in fs if fs[f] is s0.cfg][0]
    ff = [f for f in fs if f not in (kf, cf) and fs[f].op != "idx"]
    if len(ff) != 1:
        raise Undecided("build_with_metadata", "the features of a recorded edge were not found")
    ff = ff[0]
    deps, feats = [], []
    els = edge_links(g)
    groups = {}
    for l, src, dst, var, vf, n in els:
        if var == "Feature":
            continue
        site = "%s edge" % var
        if set(vf) != {"kind", "cfg"}:
            rep.unk("edge", site, "the parts of the edge have changed")
            continue
        K, C = vf["kind"], vf["cfg"]
        E = K.a[0] if K.op == "field" and K.a[1] == kf else None
        D, srckey = owner_entry(g, l.e)
        if E is None or E.op != "elem" or D is None:
            (rep.unk if taints(K, ("phi",)) or D is None else rep.bad)("edge-kind", site, "the kind of the edge is %s" % show(K, 6))
            continue
        if not (E.a[0].op == "field" and E.a[0].a[0] is field(D, "1")):
            rep.unk("edge", site, "the list of recorded edges was not recognised")
            continue
        rep.ok("edge-kind", site)
        expect(rep, "edge-cfg", site, C, field(E, cf), 1, ("phi", "fold"))
        if not source_is(g, src, srckey):
            (rep.unk if taints(src, ("phi", "fold")) else rep.bad)("edge-source", site, "the edge starts at %s" % show(src, 5))
        else:
            rep.ok("edge-source", site)
        per = [x for f in l.e.frames for x in f.elems or () if x.a[0] is field(E, ff)]
        exp = field(D, "0")
        if per:
            name = None
            for d, c in alts(dst):
                w = feature_at(d)
                if w is None:
                    rep.unk("edge-target", site, "the target was not recognised: %s" % show(d, 5))
                    break
                if w[0] is not exp:
                    rep.bad("edge-target", site, "the edge leads to a feature of %s" % show(w[0], 5))
                    break
                name = w[1]
                if g.norm(name) is not g.norm(name_of(g, exp, per[0])):
                    (rep.unk if taints(name, ("phi", "fold")) else rep.bad)("edge-target", site, "the edge leads to the feature %s" % show(name, 6))
                    break
            else:
                rep.ok("edge-target", site)
        else:
            ks = {crate_at(d) for d, c in alts(dst)}
            if ks == {exp}:
                rep.ok("edge-target", site)
            elif None in ks:
                rep.unk("edge-target", site, "the target was not recognised: %s" % show(dst, 5))
            else:
                rep.bad("edge-target", site, "the edge leads to %s" % show(next(iter(ks)), 5))
        groups.setdefault((E, D), []).append((var, bool(per), n, l))
    for (E, D), xs in groups.items():
        ne = nonempty(field(E, ff))
        plain = b_or(*[n for var, per, n, l in xs if not per])
        featd = b_or(*[n for var, per, n, l in xs if per])
        for var, per, n, l in xs:
            if (var == "DepFeature") != per:
                rep.bad("edge-variant", "%s edge" % var, "a %s edge is used for a dependency %s" % (var, "on a feature" if per else "on the crate itself"))
            else:
                rep.ok("edge-variant", "%s edge" % var)
        if not featd or not plain:
            rep.bad("edge-choice", "dependency edges", "no %s edges are added" % ("feature" if not featd else "plain"))
            continue
        v = [at for at in atoms_in(ne)]
        base = project(b_or(plain, featd), lambda at: at not in v)
        if b_and(plain, ne):
            rep.bad("edge-choice", "dependency edges", "a plain edge is added although features are requested")
        elif not n_eq(plain, b_and(base, b_not(ne))):
            rep.bad("edge-choice", "dependency edges", "a plain edge is not added if %s" % show_node(b_and(b_and(base, b_not(ne)), b_not(plain)), 5))
        elif not implies(b_and(base, ne), featd):
            rep.bad("edge-choice", "dependency edges", "a feature edge is not added if %s" % show_node(b_and(b_and(base, ne), b_not(featd)), 5))
        else:
            rep.ok("edge-choice", "dependency edges")
        # nothing about the edge or the dependency decides whether it is added, but that its target is there
        bad = []
        for at in atoms_in(base):
            if not (mentions(at, {E}) or mentions(at, {D})):
                continue
            if at.op == "exists" and len(at.a[0]) == 1:
                p = positions(mk("idx", pick("fst", at.a[0], at.a[1], at.a[0][0])))
                if p and crate_at(mk("idx", pick("fst", at.a[0], at.a[1], at.a[0][0]))) is field(D, "0") and implies(base, atom(at)):
                    continue
            bad.append(at)
        if not bad:
            rep.ok("edge-always", "dependency edges")
        elif any(taints(at, ("phi", "fold")) for at in bad):
            rep.unk("edge-always", "dependency edges", "a condition on the edge was not recognised: %s" % show(bad[0], 6))
        else:
            rep.bad("edge-always", "dependency edges", "whether an edge is added depends on %s" % show(bad[0], 7))
    if not groups:
        rep.bad("edge", "dependency edges", "no edges between crates are added")


def name_of(g, kid, i):
    """the name of the feature with an index of the resolved crate"""
    nf = field(resolved_node(g, kid), "features")
    return mk("at", mk("sorted", nf, mk("sym", "$k")), i)


def source_is(g, src, key):
    """is this the node of the crate whose dependencies are handled"""
    # the key is the id of the crate at that index
    if key.op == "proj" and key.a[2:3] == ("Krate",) or key.op == "proj":
        b = key.a[0]
        if b.op == "at" and b.a[1] is src:
            return True
        if b.op == "field" and b.a[1] == "weight":
            x = b.a[0]
            return src is mk("idx", x)
    k = crate_at(src)
    return k is not None and k is key


@rule("C09")
def feature_edges(a, rep):
    """links between features, and from features to crates, are plain feature edges"""
    g = model(a)
    for l, src, dst, var, vf, n in edge_links(g):
        D, key = owner_entry(g, l.e)
        s = [feature_at(x) for x, _ in alts(src)]
        if D is None and var != "Feature":
            if None not in s:
                rep.bad("feature-edge", "edge from a feature", "a %s edge starts at a feature" % var)
            else:
                rep.unk("feature-edge", "%s edge" % var, "the source of the edge was not recognised")
        elif D is None:
            rep.ok("feature-edge", "edge from a feature")


@rule("C09")
def one_per_pair(a, rep):
    """a recorded edge is new for its kind and cfg, and every new one is recorded"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n = s.n
        dups = []
        for at in atoms_in(n):
            if at.op == "exists" and any(any(b.op == "phi" and b.a[1] == g.kept_root for b in bases(x.a[0])) for x in at.a[0]):
                dups.append(at)
        kf = [f for f in s.f if s.f[f] is s.kind][0]
        cf = [f for f in s.f if s.f[f] is s.cfg][0]
        hc = sorted({x for _, m in alts(s.cfg) for x in atoms_in(m) if x.op == "is"}, key=lambda x: x.id)
        ok = True
        if not dups:
            rep.bad("distinct", site, "the same kind and cfg can be recorded more than once")
            continue
        for at in dups:
            if len(at.a[0]) != 1:
                ok = None
                continue
            x = at.a[0][0]
            want = b_and(as_node(B(eq(field(x, kf), s.kind))), as_node(B(eq(field(x, cf), s.cfg))))
            care = 1
            # the condition under which this form of the test is the one that is asked
            for h in hc:
                v = t._avar[h]
                for val in (1, 0):
                    m = cofactor(n, v, val)
                    if at not in atoms_in(m):
                        care = b_and(care, b_not(atom(h)) if val else atom(h))
            if not n_eq(at.a[1], want, care):
                ok = False if not taints(at.a[1], ("phi", "fold")) else None
                what = at
        D = b_or(*[atom(at) for at in dups])
        if ok is None:
            rep.unk("distinct", site, "the test for an equal edge was not recognised")
            continue
        if not ok:
            rep.bad("distinct", site, "edges count as equal if %s" % show_node(what.a[1], 6))
            continue
        # with an equal edge it is not recorded; without, it is
        rest = b_exists(n, [t._avar[at] for at in dups])
        bad = False
        for h in [()] + [((hh, val),) for hh in hc for val in (1, 0)]:
            m, r2 = n, rest
            for hh, val in h:
                m, r2 = cofactor(m, t._avar[hh], val), cofactor(r2, t._avar[hh], val)
            here = [at for at in dups if at in atoms_in(m)]
            if not h:
                continue
            mm = m
            for at in here:
                mm = cofactor(mm, t._avar[at], 1)
            if mm:
                bad = "an edge with the same kind and cfg is recorded again"
            if m and not here:
                bad = "an edge is recorded without looking for an equal one"
            mm = m
            for at in here:
                mm = cofactor(mm, t._avar[at], 0)
            if not n_eq(mm, b_exists(r2, [])):
                bad = bad or "an edge is dropped although there is no equal one"
        if bad:
            rep.bad("distinct", site, bad)
        else:
            rep.ok("distinct", site)


@rule("C09")
def recorded_kind(a, rep):
    """an edge has the kind the metadata gives"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        expect(rep, "recorded-kind", "recorded dependency %d" % (i + 1), s.raw_kind, s.kind, s.e.guard(), ("phi", "fold"))


@rule("C09")
def dep_kinds(a, rep):
    """the kinds and targets of a resolved dependency are those of the metadata"""
    g = model(a)
    seen = set()
    for s in spots(g):
        ty = None
        recs = []
        walk(s.source, lambda y: recs.append(y) if y.op == "coll" else None)
        kf = s.kind.a[1]
        for c in recs:
            for p in c.a[1]:
                if p.op != "piece" or p.a[2].op != "V" or kf not in p.a[2].a[2] or not re.search("Info$|Kind", p.a[2].a[0]) or p in seen:
                    continue
                seen.add(p)
                site = "kinds of a resolved dependency"
                es, n, v = p.a
                f = dict(zip(v.a[2], v.a[3:]))
                if len(es) != 1 or es[0].a[0].op != "field":
                    rep.unk("kind", site, "the list of kinds was not recognised")
                    continue
                x = es[0]
                if n != 1:
                    (rep.unk if taints(n) else rep.bad)("kind", site, "a kind is dropped if %s" % show_node(b_not(n), 5))
                    continue
                mdk = "cm::DependencyKind"
                k = field(x, "kind")
                names = {"Normal": "Normal", "Development": "Dev", "Build": "Build"}
                want = choice([(V("DepKind", q, ()), is_node(k, mdk, m)) for m, q in names.items()])
                care = b_or(*[is_node(k, mdk, m) for m in names])
                expect(rep, "kind", site, f[kf], want, care, ("phi", "fold"))
                cfs = [q for q in f if q != kf]
                if len(cfs) != 1:
                    rep.unk("target", site, "the target was not found")
                    continue
                c = f[cfs[0]]
                tg = field(x, "target")
                n1 = some_node(c)
                expect_node(rep, "target", site, n1, some_node(tg))
                expect(rep, "target", site, field(some_val(c), "inner"), some_val(tg), some_node(tg))
                ex = field(some_val(c), "cfg")
                # a text that starts with `cfg(` is an expression when it can be parsed
                par = set(at.a[0] for at in atoms_in(some_node(ex)) if at.op == "is" and at.a[1] == RES)
                if len(par) != 1:
                    rep.unk("target", site, "how a cfg expression is parsed was not recognised")
                    continue
                pr = par.pop()
                if mentions(pr, {some_val(tg)}):
                    w = b_and(is_node(pr, RES, "Ok"), some_node(tg))
                    if b_and(some_node(ex), some_node(tg), b_not(w)):
                        rep.bad("target", site, "a cfg expression is there although it could not be parsed")
                    left = b_and(w, b_not(some_node(ex)))
                    pre = [at for at in atoms_in(left) if at.op == "call" and at.a[0] == "starts_with"] if left else []
                    if left and not (pre and implies(left, b_not(atom(pre[0]))) and pre[0].a[2] is S("cfg(")):
                        # what the tests of the text say about texts of that form
                        whole, left = left, 0
                        for form in (("cfg(", Word("flag"), ")"), ("cfg(", Word("pred"), " = \"", Word("value"), "\")"), ("cfg(not(", Word("flag"), "))")):
                            ev, x = Eval({some_val(tg): text(*form)}), whole
                            for at in set(atoms_in(whole)) - set(atoms_in(w)):
                                try:
                                    x = cofactor(x, t._avar[at], 1 if ev.node(atom(at)) else 0)
                                except Unclear:
                                    pass
                            left = b_or(left, x)
                        if left == 0:
                            rep.ok("target", site, "a text of the form cfg(...) is parsed")
                        elif not set(atoms_in(left)) - set(atoms_in(w)):
                            rep.bad("target", site, "a cfg expression is not parsed")
                        else:
                            (rep.unk if taints(left) else rep.bad)("target", site, "a cfg expression is not parsed if %s" % show_node(left, 5))
                    else:
                        rep.ok("target", site, "expression")
                    expect(rep, "target", site, some_val(ex), proj(pr, RES, "Ok", "0"), some_node(ex))
                else:
                    rep.bad("target", site, "another text is parsed as cfg expression: %s" % show(pr, 5))
    if not seen:
        rep.unk("kind", "kinds of a resolved dependency", "the list of kinds was not found")


@rule("C03")
def recorded_kinds(a, rep):
    """the kind that is compared with the ignored ones is the one of the metadata"""
    dep_kinds(a, Part(rep, "kind"))


@rule("C04")
def recorded_targets(a, rep):
    """the target that is evaluated is the one of the metadata, a cfg expression if it is written as one"""
    dep_kinds(a, Part(rep, "target"))


@rule("C09")
def visited(a, rep):
    """the crate an edge leads to is worked on"""
    g = model(a)
    for i, s in enumerate(spots(g)):
        site = "recorded dependency %d" % (i + 1)
        n, n0 = base_first(s)
        key = s.first(s.key)
        P = 0
        for c, f, es, m in pushed(s):
            if f is None:
                if c is key:
                    P = b_or(P, m)
                else:
                    rep.bad("visited", site, "another crate is worked on: %s" % show(c, 5))
        if implies(n, P):
            rep.ok("visited", site)
        else:
            rep.bad("visited", site, "the dependency is recorded but never worked on if %s" % show_node(b_and(n, b_not(P)), 5))
