"""Helpers the rules are written with."""
import re
from . import terms as t
from .terms import *
from .engine import Program, Engine, Unsupported, norm_ty, ORD, CF

NODE = "Node"
EDGE = "Edge"


class Undecided(Exception):
    def __init__(self, site, why):
        Exception.__init__(self, "%s: %s" % (site, why))
        self.site, self.why = site, why


def head(s):
    return re.sub(r"<.*", "", s or "").split("::")[-1] if not (s or "").startswith("<") else s


class A:
    """one dumped configuration of the program"""

    def __init__(self, path, cfg, rep):
        self.p = Program(path)
        self.cfg, self.rep = cfg, rep
        self.analysed = set()
        self.cache = {}

    # -------------------------------------------------------------- finding things
    def methods(self, ty, name, trait=None, full=None):
        r = []
        for b in self.p.bodies:
            if b.get("name") != name or b["kind"] == "Closure" or "{closure" in b["path"]:
                continue
            if ty is not None and norm_ty(b.get("self") or "").split("<")[0] != ty:
                continue
            if trait is None and b.get("itrait") and ty is not None:
                continue
            if trait is not None and not (b.get("itrait") or "").endswith(trait):
                continue
            if full is not None and full not in (b.get("itraitfull") or ""):
                continue
            r.append(b)
        return r

    def method(self, ty, name, trait=None, full=None):
        r = self.methods(ty, name, trait, full)
        if len(r) != 1:
            raise Undecided("%s::%s" % (ty, name), "anchor not found uniquely (%d candidates)" % len(r))
        return r[0]

    def free(self, name, parent=None):
        r = [b for b in self.p.bodies if b.get("name") == name and not b.get("self") and "{closure" not in b["path"]]
        if len(r) != 1:
            raise Undecided(name, "anchor not found uniquely (%d candidates)" % len(r))
        return r[0]

    def adt(self, path):
        return self.p.adts.get(path)

    def fields(self, path):
        ad = self.p.adts.get(path)
        if ad is None:
            raise Undecided(path, "type is gone")
        return {f["n"]: f["ty"] for f in ad["v"][0]["f"]}

    def field_by_type(self, path, pat):
        r = [n for n, ty in self.fields(path).items() if re.search(pat, ty)]
        if len(r) != 1:
            raise Undecided(path, "no unique field of type /%s/" % pat)
        return r[0]

    # -------------------------------------------------------------- evaluation
    def run(self, body, args=None, opaque=()):
        key = (body["did"], tuple(x.id if x is not None else None for x in (args or ())), tuple(opaque))
        r = self.cache.get(key)
        if r is None:
            en = Engine(self.p, opaque=opaque)
            try:
                v, st = en.run(body, args)
            except Unsupported as ex:
                raise Undecided(body["path"], "construct outside the model: %s" % ex)
            r = self.cache[key] = Run(body, en, v, st)
        self.analysed.add(body["path"])
        return r


class Run:
    def __init__(self, body, en, v, st):
        self.body, self.en, self.v, self.st = body, en, v, st

    def evs(self, *kinds):
        return [e for e in self.en.events if e.kind in kinds]

    def heap(self, i=0):
        """final value of the place behind a `&mut` parameter"""
        return self.st.env.get(("H", sym(i)), sym(i))


def outside(r, ev, x):
    """a term or guard of an event, as the code after the loops around it sees it: an event that only happens
    when a loop is left happens for the first element that leaves it.  Elements of other loops stay as they are."""
    for f in reversed(ev.frames):
        rec = r.en.fors.get(f.lid)
        if f.kind != "for" or not f.elems or rec is None or not rec.exit or not implies(ev.guard(), rec.exit):
            continue
        m = {e: pick("fst", f.elems, rec.exit, e) for e in f.elems}
        x = t.subst_node(x, m) if isinstance(x, int) else subst(x, m)
    return x


def sym(i):
    return mk("sym", "p%d" % i)


# ------------------------------------------------------------------ imprecision
BADOPS = {"fold", "havoc", "undef", "phi", "wild"}


def walk(x, f):
    """visit every subterm, including those in guards and loop generators"""
    seen = set()
    sn = set()

    def gn(n):
        if n > 1 and n not in sn:
            sn.add(n)
            for at in atoms_in(n):
                go(at)

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (T, tuple)):
                    go(y)
            return
        if not isinstance(x, T) or x.id in seen:
            return
        seen.add(x.id)
        f(x)
        if x.op == "b":
            gn(x.a[0])
        elif x.op == "choice":
            for y, g in alts(x):
                gn(g)
                go(y)
        elif x.op in ("piece", "fst", "lst"):
            for e in x.a[0]:
                go(e)
            gn(x.a[1])
            go(x.a[2])
        elif x.op in ("exists", "count"):
            for e in x.a[0]:
                go(e)
            gn(x.a[1])
        else:
            for y in x.a:
                if isinstance(y, (T, tuple)):
                    go(y)
    if isinstance(x, int):
        gn(x)
    else:
        go(x)


def taints(x, allow=()):
    """operators in a term that the model does not interpret"""
    out = set()

    def f(x):
        if x.op in BADOPS and x.op not in allow:
            out.add(x.op)
        if x.op.startswith("?"):
            out.add(x.op)
        if x.op in ("call", "eff") and isinstance(x.a[0], str) and x.a[0].startswith("?"):
            out.add(x.a[0])
    walk(x, f)
    return sorted(out)


def syms_of(x):
    out = set()
    walk(x, lambda y: out.add(y.a[0]) if y.op == "sym" else None)
    return sorted(out)


def calls_of(x):
    out = set()
    walk(x, lambda y: out.add(y) if y.op == "call" else None)
    return out


# ------------------------------------------------------------------ comparison
def isvar(x, adt, var):
    return is_node(x, adt, var)


def n_eq(n, m, care=1):
    """do two guards agree on the care set"""
    return implies(care, b_xnor(n, m))


def same(a, b, care=1):
    """semantic equality of two values on the care set (sound for True)"""
    if care == 0 or a is b:
        return True
    if a.op == "b" and b.op == "b":
        return n_eq(as_node(a), as_node(b), care)
    if a.op == "choice" or b.op == "choice":
        for x, g in alts(a):
            gx = b_and(care, g)
            if gx == 0:
                continue
            for y, h in alts(b):
                gy = b_and(gx, h)
                if gy == 0:
                    continue
                if not same(x, y, gy):
                    return False
        return True
    if a.op == "V" and b.op == "V":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
            return False
        fa = dict(zip(a.a[2], a.a[3:]))
        fb = dict(zip(b.a[2], b.a[3:]))
        return set(fa) == set(fb) and all(same(fa[k], fb[k], care) for k in fa)
    if a.op == "tup" and b.op == "tup":
        return len(a.a) == len(b.a) and all(same(x, y, care) for x, y in zip(a.a, b.a))
    if a.op == "coll" and b.op != "coll" and b.op in ("field", "proj", "sym", "call", "slice"):
        b = coll(a.a[0], [piece((elem(b),), 1, elem(b))])
    elif b.op == "coll" and a.op != "coll" and a.op in ("field", "proj", "sym", "call", "slice"):
        a = coll(b.a[0], [piece((elem(a),), 1, elem(a))])
    if a.op == "coll" and b.op == "coll":
        pa = [p for p in a.a[1] if p.op != "piece" or b_and(p.a[1], care) != 0]
        pb = [p for p in b.a[1] if p.op != "piece" or b_and(p.a[1], care) != 0]
        if len(pa) != len(pb):
            return False
        if a.a[0] in ("set", "map") and b.a[0] in ("set", "map"):
            for x in pa:
                k = next((y for y in pb if same_piece(x, y, care)), None)
                if k is None:
                    return False
                pb.remove(k)
            return True
        return all(same_piece(x, y, care) for x, y in zip(pa, pb))
    n = as_node(eq(a, b)) if isinstance(eq(a, b), T) else eq(a, b)
    return implies(care, n)


def same_piece(x, y, care):
    if x is y:
        return True
    if x.op != "piece" or y.op != "piece":
        return False
    if x.a[0] != y.a[0]:
        # alpha-rename
        if len(x.a[0]) != len(y.a[0]):
            return False
        m = {}
        for e, f in zip(x.a[0], y.a[0]):
            if subst(e, m).a[0] is not f.a[0]:
                return False
            m[e] = f
        return n_eq(subst_node(x.a[1], m), y.a[1], care) and same(subst(x.a[2], m), y.a[2], b_and(care, y.a[1]))
    return n_eq(x.a[1], y.a[1], care) and same(x.a[2], y.a[2], b_and(care, y.a[1]))


def rebind(x, memo=None, unique=None):
    """generators in an order-independent form: over the unsorted collection, and over elements instead of positions.
    unique: {collection: key of an element}; no two elements have the same key, and every key asked for is present"""
    memo = {} if memo is None else memo
    if isinstance(x, int):
        return as_node(rebind(B(x), memo, unique))

    def gn(n):
        return t.b_compose(n, lambda at: as_node(go(at))) if n > 1 else n

    def binders(es):
        ren, out = {}, []
        for e in es:
            src = go(subst(e.a[0], ren) if ren else e.a[0])
            ne, val = elem(t.see_through(src), e.a[1]), None
            if src.op == "V" and src.a[0].endswith("Range") and src.a[3] is I(0) or src.op == "range" and src.a[0] is I(0):
                ln = src.a[4] if src.op == "V" else src.a[1]
                if ln.op == "len":
                    ne = elem(t.see_through(ln.a[0]), e.a[1])
                    val = mk("idx", ne)
            out.append(ne)
            if val is not None or ne is not e:
                ren[e] = val if val is not None else ne
        return tuple(out), ren

    def only(es, n):
        if len(es) == 1 and es[0].a[0] in unique:
            e = es[0]
            for at in atoms_in(n):
                if at.op == "eq" and implies(n, atom(at)):
                    for k, o in (at.a, at.a[::-1]):
                        if k is unique[e.a[0]](e) and not mentions(o, {e}):
                            return subst_node(cofactor(n, t._avar[at], 1), {e: pick("fst", es, atom(at), e)})
        return exists(es, n)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) if isinstance(y, (T, tuple)) else y for y in x)
        if not isinstance(x, T) or x.op in ("c", "sym", "phi"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "b":
            r = B(gn(x.a[0]))
        elif x.op == "choice":
            r = choice([(go(v), gn(g)) for v, g in alts(x)])
        elif x.op in ("piece", "exists", "count", "fst", "lst"):
            es, ren = binders(x.a[0])
            n = gn(subst_node(x.a[1], ren) if ren else x.a[1])
            if x.op == "exists":
                r = B(only(es, n) if unique else exists(es, n))
            elif x.op == "count":
                r = mk("count", es, n)
            else:
                v = go(subst(x.a[2], ren) if ren else x.a[2])
                r = mk("piece", es, n, v) if x.op == "piece" else pick(x.op, es, n, v)
        elif x.op == "coll":
            r = coll(x.a[0], [go(p) for p in x.a[1]])
        elif x.op == "elem":
            src = go(x.a[0])
            r = elem(t.see_through(src), x.a[1])
        else:
            na = [go(y) if isinstance(y, (T, tuple)) else y for y in x.a]
            r = x if all(p is q for p, q in zip(na, x.a)) else t.rebuild(x.op, tuple(na))
        memo[x] = r
        return r
    return go(x)


def bag(x, care=1, norm=rebind):
    """the contents of a collection without order: {(generators, value): guard}"""
    out = {}

    def add_(es, n, v):
        if v.op == "choice":
            for w, g in alts(v):
                add_(es, b_and(n, g), w)
            return
        if v.op == "V" and any(y.op == "choice" for y in v.a[3:]):
            i = next(i for i, y in enumerate(v.a) if i >= 3 and y.op == "choice")
            for w, g in alts(v.a[i]):
                add_(es, b_and(n, g), mk("V", *(v.a[:i] + (w,) + v.a[i + 1:])))
            return
        if v.op == "tup" and any(y.op == "choice" for y in v.a):
            i = next(i for i, y in enumerate(v.a) if y.op == "choice")
            for w, g in alts(v.a[i]):
                add_(es, b_and(n, g), mk("tup", *(v.a[:i] + (w,) + v.a[i + 1:])))
            return
        n = b_and(n, care)
        if n:
            out[(es, v)] = b_or(out.get((es, v), 0), n)

    def coll_(c, n):
        if c.op == "choice":
            for w, g in alts(c):
                coll_(w, b_and(n, g))
            return
        if c.op != "coll":
            add_((elem(c),), n, elem(c))
            return
        for p in c.a[1]:
            if p.op == "piece":
                if len(p.a[0]) == 1 and p.a[2] is p.a[0][0] and p.a[0][0].a[0].op in ("coll", "choice") and not node_mentions(p.a[1], frozenset(p.a[0])):
                    coll_(p.a[0][0].a[0], b_and(n, p.a[1]))
                    continue
                add_(p.a[0], b_and(n, p.a[1]), p.a[2])
            else:
                add_((), n, p)
    coll_(norm(x), 1)
    return out


def expect_bag(rep, rule, site, got, want, care=1, norm=rebind):
    """the same elements under the same conditions, in any order"""
    g, w = bag(got, care, norm), bag(want, care, norm)
    bad = []
    for k in sorted(set(g) | set(w), key=lambda k: k[1].id):
        x, y = g.get(k, 0), w.get(k, 0)
        if not n_eq(x, y):
            bad.append((k, x, y))
    if not bad:
        rep.ok(rule, site)
        return True
    tn = sorted({z for k, x, y in bad if x for z in taints(k[1]) + taints(x)} | {z for z in taints(got)})
    if tn:
        rep.unk(rule, site, "the code uses %s, which the model does not interpret" % ", ".join(tn))
        return None
    k, x, y = bad[0]
    rep.bad(rule, site, "the element %s is expected %s but the code has it %s" % (
        show(k[1], 6), "if " + show_node(y, 5) if y else "never", "if " + show_node(x, 5) if x else "never"))
    return False


def fix_atoms(n, f):
    """guard with atoms replaced by constants where f(atom) gives True/False"""
    def g(at):
        r = f(at)
        return None if r is None else (1 if r else 0)
    for at in list(atoms_in(n)) if n > 1 else []:
        r = g(at)
        if r is not None:
            n = cofactor(n, t._avar[at], r)
    return n


def all_guards(x, f, memo=None):
    """rebuild a term with every guard mapped by f"""
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return tuple(all_guards(y, f, memo) if isinstance(y, (T, tuple)) else y for y in x)
    if not isinstance(x, T):
        return x
    if x.id in memo:
        return memo[x.id]
    if x.op == "b":
        r = B(f(as_node(x)))
    elif x.op == "choice":
        r = choice([(all_guards(v, f, memo), f(g)) for v, g in alts(x)])
    elif x.op == "piece":
        r = piece(all_guards(x.a[0], f, memo), f(x.a[1]), all_guards(x.a[2], f, memo))
    elif x.op == "coll":
        r = coll(x.a[0], [all_guards(p, f, memo) for p in x.a[1]])
    elif x.op in ("V",):
        r = V(x.a[0], x.a[1], x.a[2], *[all_guards(y, f, memo) for y in x.a[3:]])
    elif x.op == "tup":
        r = mk("tup", *[all_guards(y, f, memo) for y in x.a])
    else:
        r = x
    memo[x.id] = r
    return r


def expect(rep, rule, site, got, want, care=1, allow=(), norm=None):
    """obligation: the value computed by the code is the value the property prescribes"""
    if norm:
        got, want = norm(got), norm(want)
    if same(got, want, care):
        rep.ok(rule, site)
        return True
    tn = taints(got, allow)
    if tn:
        rep.unk(rule, site, "the code uses %s, which the model does not interpret" % ", ".join(tn))
        return None
    rep.bad(rule, site, "expected %s but the code computes %s" % (show(want, 9), show(got, 9)))
    return False


def expect_node(rep, rule, site, got, want, care=1, allow=()):
    if n_eq(got, want, care):
        rep.ok(rule, site)
        return True
    tn = taints(got, allow)
    if tn:
        rep.unk(rule, site, "the condition uses %s, which the model does not interpret" % ", ".join(tn))
        return None
    rep.bad(rule, site, "expected the condition %s but the code tests %s" % (show_node(want), show_node(got)))
    return False


def some_node(v):
    return is_node(v, OPT, "Some")


def panic_node(r):
    """when a run ends in a panic: an explicit one, or the unwrap of an absent value"""
    n = 0
    for e in r.evs("panic", "unwrap"):
        g = e.guard()
        if e.kind == "unwrap":
            x = e.args[0]
            g = b_and(g, b_not(is_node(x, RES, "Ok") if is_res(x, e) else some_node(x)))
        n = b_or(n, g)
    return n


def some_val(v):
    return proj(v, OPT, "Some", "0")


def no_panics(rep, rule, site, r, allow=()):
    """obligation: no reachable panic, and every unwrap is covered by its guard"""
    bad = False
    for e in r.evs("panic", "unwrap"):
        g = e.guard()
        if g == 0 or any(x in str(e.name) for x in allow):
            continue
        if e.kind == "unwrap":
            x = e.args[0]
            n = b_or(*[is_node(y, OPT, "Some") if y.op != "V" or y.a[0] == OPT else is_node(y, RES, "Ok") for y in [x]]) if not is_res(x, e) else is_node(x, RES, "Ok")
            if implies(g, n):
                continue
            tn = taints(x)
            if tn or not refutable(g, n):
                rep.unk(rule, site, "not shown that this always has a value: %s" % e)
            else:
                rep.bad(rule, site, "this value can be absent: %s" % e)
            bad = True
        else:
            if e.guard() == 1 or not taints(e.guard()):
                rep.bad(rule, site, "a panic is reachable: %s" % e)
            else:
                rep.unk(rule, site, "a panic is perhaps reachable: %s" % e)
            bad = True
    if not bad:
        rep.ok(rule, site)


def is_res(x, e):
    def alt(y):
        return y.op == "V" and y.a[0] == RES
    return any(alt(y) for y, _ in alts(x)) or "Result" in str(e.did or "") or "result" in str((e.node or {}).get("fn", ""))


def refutable(g, n):
    """is g & !n satisfiable by plain independent atoms"""
    return True
