"""Graph construction: which dependencies become edges (C03, C04, C05, C06, C09)"""
import re, itertools
from ..ctx import rule
from ..lib import *
from .build import *
from .graphs import model, project, bases, DEPKIND
from .cmdr import setter



class Dep:
    """one place where a dependency of the crate at hand is recorded as an edge"""

    def __init__(self, g, e, v, n):
        self.g, self.e, self.v = g, e, v
        self.f = dict(zip(v.a[2], v.a[3:]))
        ty = {f["n"]: f["ty"] for f in g.a.adt(v.a[0])["v"][0]["f"]}
        k = [x for x in self.f if re.search(r"\bDepKind$|DependencyKind$", ty[x])]
        c = [x for x in self.f if re.search(r"Option<.*(String|str)", ty[x])]
        i = [x for x in self.f if self.f[x].op == "idx"]
        self.raw_kind = self.f[k[0]] if len(k) == 1 else None
        if self.raw_kind is not None and self.raw_kind.op == "choice":
            # the kind of the metadata, where something else is recorded only sometimes
            al = [x for x, _ in alts(self.raw_kind) if x.op == "field"]
            if len(al) == 1:
                self.f[k[0]] = al[0]
        if len(k) != 1 or len(c) != 1 or self.f[k[0]].op != "field":
            raise Undecided("build_with_metadata", "the parts of a recorded edge were not recognised")
        self.kind, self.cfg = self.f[k[0]], self.f[c[0]]
        self.dk = self.kind.a[0]
        self.decl_term = self.f[i[0]].a[0] if len(i) == 1 else None
        self.decl = mk("sym", "$decl")
        n = b_and(e.guard(), n)
        # the test whether any dependency kind is kept at all follows from this one being kept
        own = [at for at in atoms_in(n) if at.op == "exists" and any(x.a[0] is self.dk.a[0] for x in at.a[0])]
        n = b_exists(n, [t._avar[at] for at in own])
        if self.decl_term is not None:
            n = subst_node(n, {self.decl_term: self.decl})
        self.n = n
        self.by_feature = None

    def is_kind(self, k):
        return is_node(self.kind, DEPKIND, k)


def recorded(g):
    if "deps" in g.__dict__:
        return g.deps
    out = []
    for e in g.ev:
        if not g.in_walk(e) or e.kind != "mutate" or e.name not in ("push", "insert", "set_insert", "push_back") or not g.touches(e, g.kept_root):
            continue
        for v, n in alts(e.args[-1]):
            if v.op == "V" and g.a.adt(v.a[0]) and any(re.search(r"\bDepKind$|DependencyKind$", f["ty"]) for f in g.a.adt(v.a[0])["v"][0]["f"]):
                if b_and(e.guard(), n):
                    out.append(Dep(g, e, v, n))
    if not out:
        raise Undecided("build_with_metadata", "no place was found where a dependency is recorded")
    g.deps = out
    return out


def member(g):
    m = elem(g.members)
    return exists((m,), as_node(B(eq(mk("conv", "Kid", m), g.pid))))


# --------------------------------------------------------------------------- C03
SCOPE = "builder::Scope"


@rule("C03")
def ignored(a, rep):
    g = model(a)
    kinds = [v["n"] for v in a.adt(DEPKIND)["v"]]
    b = a.method(BLD, "ignore_kind")
    r = a.run(b)
    new = a.run(a.method(BLD, "new")).v
    if new.op != "V":
        raise Undecided("Builder::new", "the initial configuration is not known")
    fs = new.a[2]

    def ignore(st, k, s):
        return subst(r.heap(0), {sym(0): st, sym(1): V(DEPKIND, k, ()), sym(2): V(SCOPE, s, ())})

    def state_of(v):
        """the fields a sequence of calls changed"""
        v = flatten(v, fs)
        return {f: x for f, x in zip(fs, v.a[3:])}
    site = "Builder::ignore_kind"
    base = state_of(new)
    touched = set()
    states = []     # (frozenset of (kind, member?), fields)
    cover = {"Workspace": (True,), "NonWorkspace": (False,), "All": (True, False)}
    singles = [(k, s) for k in kinds for s in cover]
    seqs = [()] + [(x,) for x in singles] + [(x, y) for x in singles for y in singles]
    seqs += [c for n in range(3, 7) for c in itertools.combinations([(k, s) for k in kinds for s in ("Workspace", "NonWorkspace")], n)]
    for seq in seqs:
        v = new
        for k, s in seq:
            v = ignore(v, k, s)
        st = state_of(v)
        touched |= {f for f in fs if st[f] is not base[f]}
        states.append((frozenset((k, w) for k, s in seq for w in cover[s]), st, seq))
    if not touched:
        rep.bad("setter", site, "ignoring a kind does not change the configuration")
        return
    for want, st, seq in states:
        for f in touched:
            if taints(st[f]) or syms_of(st[f]):
                rep.unk("setter", site, "the configuration is not known after %s" % (seq,))
                return
    rep.ok("setter", site, "%d sequences of calls evaluated" % len(states))
    distinct = {}
    for want, st, seq in states:
        distinct.setdefault((want, tuple(st[f] for f in sorted(touched))), (st, seq))
    W = member(g)
    for i, d in enumerate(recorded(g)):
        site = "recorded dependency %d" % (i + 1)
        n = d.n
        if not (set(atoms_in(W)) <= set(atoms_in(n))):
            n = g.norm(n)
            W = g.norm(W)
        none = subst_node(n, {field(sym(0), f): base[f] for f in touched})
        bad = None
        for (want, _), (st, seq) in distinct.items():
            m = subst_node(n, {field(sym(0), f): st[f] for f in touched})
            for k in kinds:
                for w in (True, False):
                    c = b_and(d.is_kind(k), W if w else b_not(W))
                    x, y = b_and(m, c), b_and(none, c)
                    exp = 0 if (k, w) in want else y
                    if y == 0:
                        bad = bad or "a %s dependency of a %s is dropped although nothing is ignored" % (k, "workspace member" if w else "crate outside the workspace")
                    elif not n_eq(x, exp):
                        bad = bad or "after ignoring %s, a %s dependency of a %s is %s" % (
                            " and ".join("%s for %s" % s for s in seq) or "nothing", k,
                            "workspace member" if w else "crate outside the workspace", "kept" if exp == 0 else "not always kept")
        if bad is None:
            rep.ok("ignored", site, "%d configurations, 3 kinds, member or not" % len(distinct))
        elif any(mentions(at, {field(sym(0), f)}) and taints(at, ("phi",)) for f in touched for at in atoms_in(n)):
            rep.unk("ignored", site, "the model does not interpret the test of the ignored kinds")
        else:
            rep.bad("ignored", site, bad)


def flatten(v, fs):
    """a builder value as a plain record"""
    if v.op == "with":
        base = flatten(v.a[0], fs)
        d = dict(zip(base.a[2], base.a[3:]))
        d[v.a[1]] = v.a[2]
        return V(base.a[0], base.a[1], base.a[2], *[d[f] for f in base.a[2]])
    return v


# --------------------------------------------------------------------------- C04
TF, TGT = "builder::TargetFilter", "builder::Target"
PRED = "cfg_expr::Predicate"


@rule("C04")
def targets(a, rep):
    g = model(a)
    flt = g.f(r"TargetFilter")
    filtering = nonempty(flt)
    for i, d in enumerate(recorded(g)):
        site = "recorded dependency %d" % (i + 1)
        cs = [x for x, _ in alts(d.cfg)]
        # the target of the dependency as it was parsed, behind the text that is kept
        cfgs = set()
        walk(d.cfg, lambda x: cfgs.add(x.a[0]) if x.op == "proj" and x.a[1] == "Some" and x.a[0].op == "field" and x.a[0].a[0] is d.dk else None)
        if len(cfgs) != 1:
            rep.unk("target", site, "the target of the dependency was not found")
            continue
        c = cfgs.pop()
        md = some_val(c)
        expect(rep, "cfg-text", site, d.cfg, ite(some_node(c), some(field(md, "inner")), NONE))
        expr = field(md, "cfg")
        ex = some_val(expr)
        m = elem(flt)
        ev = a.run(a.method(TF, "eval")).v
        mt = a.run(a.method(TF, "matches_triple")).v
        pr = mk("sym", "$pred")
        by_expr = exists((m,), as_node(mk("cfgeval", ex, subst(ev, {sym(0): m, sym(1): pr}))))
        by_name = exists((m,), as_node(subst(mt, {sym(0): m, sym(1): field(md, "inner")})))
        preds = nonempty(mk("call", "predicates", ex))
        pats = [at.a[0] for at in atoms_in(d.n) if at.op == "nonempty" and at.a[0].op == "call" and "predicates" in str(at.a[0].a[0])]
        if pats:
            preds = nonempty(pats[0])
        T0 = as_node(mk("cfgeval", ex, TRUE))
        hascfg, hasex = some_node(c), some_node(expr)
        want = b_or(b_not(hascfg), b_ite(filtering, b_ite(hasex, by_expr, by_name), b_or(b_not(hasex), preds, T0)))
        ats = set(atoms_in(want))
        ats |= {at for at in atoms_in(d.n) if mentions(at, {c}) and at not in ats and not g.state_atom(at)}
        care = 1
        # without predicates an expression has one value, whatever the predicates are said to be
        n = d.n
        for at in atoms_in(n):
            if at.op == "cfgeval" and at.a[0] is ex and at is not mk("cfgeval", ex, TRUE):
                n = b_ite(preds, n, subst_node(n, {at: mk("cfgeval", ex, TRUE)}))
        for k in ("Normal", "Dev", "Build"):
            got = project(b_and(n, d.is_kind(k)), lambda at: at in ats)
            if n_eq(got, want):
                rep.ok("target", site + " " + k)
            elif taints(got, ("phi",)):
                rep.unk("target", site, "the model does not interpret the test of the target")
                break
            elif b_and(n, d.is_kind(k), b_not(want)):
                rep.bad("target", site, "a dependency is kept although no requested target applies: %s" % show_node(b_and(got, b_not(want)), 6))
                break
            else:
                rep.bad("target", site, "a dependency is dropped although it applies: %s" % show_node(b_and(want, b_not(got)), 6))
                break
        if b_and(n, b_not(want)) == 0:
            rep.ok("target-only", site)


@rule("C04")
def target_filters(a, rep):
    me, p = sym(0), sym(1)
    PR = "cfg_expr::expr::Predicate"
    inner = field(me, a.field_by_type(TF, r"\bTarget$"))
    feats = field(me, a.field_by_type(TF, r"Vec<"))
    r = a.run(a.method(TF, "eval"))
    PR = next((at.a[1] for at in atoms_in(as_node(r.v)) if at.op == "is" and at.a[0] is p), PR)
    vs = [v["n"] for v in a.adt(TGT)["v"]]
    tp = proj(p, PR, "Target", "0")
    hit = 0
    for v in vs:
        if v != "Unknown":
            hit = b_or(hit, b_and(is_node(inner, TGT, v), as_node(mk("call", "cfg_matches", tp, proj(inner, TGT, v, "0")))))
    cm_ = [x for x in calls_of(as_node(r.v)) if "matches" in str(x.a[0])]
    if cm_:
        def fit(n):
            """the matcher the code calls, on the operands the property prescribes"""
            return n
    ops = {at.op for at in atoms_in(as_node(r.v))}
    if "cfg_matches" in ops:
        hit = b_or(*[b_and(is_node(inner, TGT, v), as_node(mk("cfg_matches", tp, proj(inner, TGT, v, "0")))) for v in vs if v != "Unknown"])
    want = b_or(b_and(is_node(p, PR, "Target"), hit),
                b_and(is_node(p, PR, "TargetFeature"), as_node(B(contains(feats, proj(p, PR, "TargetFeature", "0"))))))
    expect_node(rep, "predicate", "TargetFilter::eval", as_node(r.v), want)
    r = a.run(a.method(TF, "matches_triple"))
    want = b_and(is_node(inner, TGT, "Unknown"), as_node(B(eq(sym(1), proj(inner, TGT, "Unknown", "0")))))
    want = b_or(want, b_and(is_node(inner, TGT, "Builtin"), as_node(B(eq(sym(1), field(proj(inner, TGT, "Builtin", "0"), "triple"))))))
    if "Triple" in vs:
        # the text of a parsed triple
        tx = proj(inner, TGT, "Triple", "0")
        tx = next((x for x in calls_of(as_node(r.v)) if x.a == ("to_string", tx)), mk("fmt", tx))
        want = b_or(want, b_and(is_node(inner, TGT, "Triple"), as_node(B(eq(sym(1), tx)))))
    care = b_or(*[is_node(inner, TGT, v) for v in ("Unknown", "Builtin", "Triple") if v in vs])
    expect_node(rep, "triple", "TargetFilter::matches_triple", as_node(r.v), want, care)
    setter_targets(a, rep)


def setter_targets(a, rep):
    p1 = sym(1)
    r = a.run(a.method(BLD, "include_targets"))
    f = a.field_by_type(BLD, r"TargetFilter")
    old = field(sym(0), f)
    e = elem(p1)
    fi, ff = a.field_by_type(TF, r"\bTarget$"), a.field_by_type(TF, r"Vec<")
    new = V(TF, "TargetFilter", tuple(a.fields(TF)), *[field(e, "0") if n == fi else field(e, "1") for n in a.fields(TF)])
    from .cmdr import changed
    ch = changed(a, BLD, r)
    if set(ch) != {f}:
        (rep.unk if taints(r.heap(0)) else rep.bad)("targets-setter", "Builder::include_targets", "changes %s" % sorted(ch))
        return
    expect_bag(rep, "targets-setter", "Builder::include_targets", ch[f], coll("vec", [piece((elem(old),), 1, elem(old)), piece((e,), 1, new)]))
    b = [x for x in a.p.bodies if x.get("name") == "from" and norm_ty(x.get("self") or "") == TGT]
    if len(b) != 1:
        rep.unk("target", "Target::from", "no single conversion")
        return
    r = a.run(b[0])
    got = r.v
    bi = [x for x in calls_of(got) if "builtin_target" in str(x.a[0])]
    if len(set(bi)) != 1:
        rep.unk("target", "Target::from", "the list of builtin targets is not consulted once")
        return
    x = bi[0]
    expect(rep, "target", "Target::from triple", x.a[1], sym(0))
    expect(rep, "target", "Target::from builtin", got, V(TGT, "Builtin", ("0",), some_val(x)), some_node(x))
    unk_ = is_node(got, TGT, "Unknown")
    expect(rep, "target", "Target::from unknown", proj(got, TGT, "Unknown", "0"), sym(0), unk_)
    expect_node(rep, "target", "Target::from known", b_and(unk_, some_node(x)), 0)
