"""Hash-consed value terms and BDD guards (the abstract domain of the analysis)."""
import sys
sys.setrecursionlimit(200000)


import os
SCR = int(os.environ.get('KVERIF_SCR', '1'))


class T(float):
    """a term; a float only so that its hash does not depend on where it lies in memory"""
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T((_n[0] * SCR & 0x7fffffff) + 1000000000.5)
        t.op = op
        t.a = a
        t.id = _n[0]
        _n[0] += 1
        _tab[key] = t
    return t


# ---------------------------------------------------------------- BDD
# node: int; 0/1 terminals
_nodes = [None, None]
_uniq = {}
_atoms = []          # var -> T
_avar = {}           # T -> var
_itec = {}


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def atom(t):
    """BDD of an opaque boolean term."""
    v = _avar.get(t)
    if v is None:
        v = len(_atoms)
        _atoms.append(t)
        _avar[t] = v
    return _node(v, 0, 1)


def atom_of(v):
    return _atoms[v]


def b_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    tops = [_nodes[x][0] for x in k if x > 1]
    v = min(tops)

    def co(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][1 + b]
        return x
    r = _node(v, b_ite(co(f, 0), co(g, 0), co(h, 0)), b_ite(co(f, 1), co(g, 1), co(h, 1)))
    _itec[k] = r
    return r


def b_and(*xs):
    r = 1
    for x in xs:
        r = b_ite(r, x, 0)
    return r


def b_or(*xs):
    r = 0
    for x in xs:
        r = b_ite(r, 1, x)
    return r


def b_not(x):
    return b_ite(x, 0, 1)


def b_imp(a, b):
    return b_ite(a, b, 1)


def b_xnor(a, b):
    return b_ite(a, b, b_not(b))


_resc = {}


def restrict(f, c):
    """simplify f using the care set c (Coudert/Madre restrict)"""
    if c == 0 or f <= 1 or c == 1:
        return f
    k = (f, c)
    r = _resc.get(k)
    if r is not None:
        return r
    vf, vc = _nodes[f][0], _nodes[c][0]
    if vc < vf:
        r = restrict(f, b_or(_nodes[c][1], _nodes[c][2]))
    else:
        if vc == vf:
            c0, c1 = _nodes[c][1], _nodes[c][2]
        else:
            c0 = c1 = c
        f0, f1 = _nodes[f][1], _nodes[f][2]
        if c0 == 0:
            r = restrict(f1, c1)
        elif c1 == 0:
            r = restrict(f0, c0)
        else:
            r = _node(vf, restrict(f0, c0), restrict(f1, c1))
    _resc[k] = r
    return r


def implies(a, b):
    return b_and(a, b_not(b)) == 0


_supc = {}


def support(n):
    """set of var indices"""
    if n <= 1:
        return frozenset()
    r = _supc.get(n)
    if r is None:
        v, lo, hi = _nodes[n]
        r = support(lo) | support(hi) | {v}
        _supc[n] = r
    return r


def atoms_in(n):
    return [_atoms[v] for v in sorted(support(n))]


def cofactor(n, var, val):
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _nodes[x]
        if v > var:
            r = x
        elif v == var:
            r = hi if val else lo
        else:
            r = _node(v, go(lo), go(hi))
        memo[x] = r
        return r
    return go(n)


def b_exists(n, vars_):
    """quantify the given var indices existentially"""
    vars_ = frozenset(vars_)
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _nodes[x]
        l, h = go(lo), go(hi)
        r = b_or(l, h) if v in vars_ else b_ite(_node(v, 0, 1), h, l)
        memo[x] = r
        return r
    return go(n)


def b_compose(n, f):
    """replace each atom variable v by the BDD f(atom term)"""
    memo = {}

    def go(x):
        if x <= 1:
            return x
        r = memo.get(x)
        if r is None:
            v, lo, hi = _nodes[x]
            r = b_ite(f(_atoms[v]), go(hi), go(lo))
            memo[x] = r
        return r
    return go(n)


def node_parts(n):
    return _nodes[n]


def one_path(n):
    """a satisfying assignment as list of (atom, bool)"""
    out = []
    while n > 1:
        v, lo, hi = _nodes[n]
        if hi != 0:
            out.append((_atoms[v], True))
            n = hi
        else:
            out.append((_atoms[v], False))
            n = lo
    return out


# ---------------------------------------------------------------- values
UNIT = mk("tup")
TRUE = mk("b", 1)
FALSE = mk("b", 0)


def B(n):
    return mk("b", n)


def C(kind, v):
    return mk("c", kind, v)


def I(v):
    return mk("c", "int", v)


def S(v):
    return mk("c", "str", v)


def V(adt, v, names=(), *vals):
    return mk("V", adt, v, tuple(names), *vals)


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = V(OPT, "None")


def some(x):
    return V(OPT, "Some", ("0",), x)


def ok(x):
    return V(RES, "Ok", ("0",), x)


def err(x):
    return V(RES, "Err", ("0",), x)


def alts(v):
    """[(value, node)] alternatives of a value"""
    if v.op == "choice":
        return list(zip(v.a[1:], v.a[0]))
    return [(v, 1)]


def choice(pairs):
    """build from [(value, node)] (disjoint guards); merges same-shaped values"""
    flat = []
    for v, n in pairs:
        if n == 0:
            continue
        if v.op == "choice":
            for w, m in alts(v):
                k = b_and(n, m)
                if k:
                    flat.append((w, k))
        else:
            flat.append((v, n))
    if not flat:
        return mk("undef")
    # group by constructor
    groups = {}
    order = []
    for v, n in flat:
        if v.op == "V":
            k = ("V", v.a[0], v.a[1])
        elif v.op == "tup":
            k = ("tup", len(v.a))
        elif v.op == "b":
            k = ("b",)
        elif v.op == "coll":
            k = ("coll", v.a[0])
        else:
            k = ("t", v.id)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append((v, n))
    # an opaque collection and extensions of it
    ck = [k for k in order if k[0] == "coll"]
    if len(ck) == 1 and len(order) == 2:
        other = next(k for k in order if k[0] != "coll")
        if other[0] == "t":
            t = groups[other][0][0]
            if all(v.a[1] and is_ident_piece(v.a[1][0], t) for v, _ in groups[ck[0]]):
                kind = ck[0][1]
                groups[ck[0]] = [(mk("coll", kind, (ident_piece(t),)), n) for _, n in groups[other]] + groups[ck[0]]
                order = ck
    # mixing bool constants with opaque bools: all to b
    out = []
    if any(k[0] == "b" for k in order) and len(order) > 1:
        acc = 0
        for v, n in flat:
            acc = b_or(acc, b_and(n, as_node(v)))
        return B(acc)
    for k in order:
        g = groups[k]
        tot = b_or(*[n for _, n in g])
        if all(v is g[0][0] for v, _ in g):
            out.append((g[0][0], tot))
        elif k[0] == "V":
            v0 = g[0][0]
            fields = []
            for i in range(len(v0.a) - 3):
                fields.append(choice_under([(v.a[3 + i], n) for v, n in g], tot))
            out.append((mk("V", v0.a[0], v0.a[1], v0.a[2], *fields), tot))
        elif k[0] == "tup":
            v0 = g[0][0]
            fields = [choice_under([(v.a[i], n) for v, n in g], tot) for i in range(len(v0.a))]
            out.append((mk("tup", *fields), tot))
        elif k[0] == "b":
            out.append((B(choice_node([(v.a[0], n) for v, n in g], tot)), tot))
        elif k[0] == "coll":
            m = merge_coll([(v, n) for v, n in g], tot)
            if m is not None:
                out.append((m, tot))
            else:
                seen = {}
                for v, n in g:
                    seen[v] = b_or(seen.get(v, 0), n)
                out.extend(seen.items())
    if len(out) == 1:
        return out[0][0]
    out.sort(key=lambda p: p[0].id)
    # a payload that merely re-wraps an opaque option is the option itself
    r = mk("choice", tuple(n for _, n in out), *[v for v, _ in out])
    return unwrap_eta(r)


def ident_piece(t):
    e = mk("elem", t, 0)
    return mk("piece", (e,), 1, e)


def is_ident_piece(p, t=None):
    return (p.op == "piece" and len(p.a[0]) == 1 and p.a[1] == 1 and p.a[2] is p.a[0][0]
            and (t is None or p.a[0][0].a[0] is t))


def unwrap_eta(r):
    vs = alts(r)
    if len(vs) == 2 and all(v.op == "V" for v, _ in vs) and vs[0][0].a[0] == vs[1][0].a[0]:
        for v, n in vs:
            if len(v.a) == 4 and v.a[3].op == "proj" and v.a[3].a[1] == v.a[1]:
                t = v.a[3].a[0]
                others = [(w, m) for w, m in vs if w is not v]
                w, m = others[0]
                if n == is_node(t, v.a[0], v.a[1]) and m == b_not(n):
                    if len(w.a) == 3 or (len(w.a) == 4 and w.a[3].op == "proj" and w.a[3].a[0] is t and w.a[3].a[1] == w.a[1]):
                        return t
    return r


def choice_care(pairs, care):
    """choice where only the space `care` (the union of the guards) matters: guards are simplified"""
    vals = {}
    for v, n in pairs:
        if n:
            vals[v] = b_or(vals.get(v, 0), n)
    if not vals:
        return mk("undef")
    items = sorted(vals.items(), key=lambda p: p[0].id)
    # sequential ite with simplified conditions
    r = items[-1][0]
    left = items[-1][1]
    for v, n in reversed(items[:-1]):
        tot = b_or(left, n)
        c = restrict(n, tot)
        r = ite(c, v, r)
        left = tot
    return r


def choice_under(pairs, tot):
    """value choice where only the space `tot` matters"""
    vals = {}
    for v, n in pairs:
        vals[v] = b_or(vals.get(v, 0), n)
    if len(vals) == 1:
        return next(iter(vals))
    return choice_care(list(vals.items()), tot)


def choice_node(pairs, tot):
    ns = {n for n, _ in pairs}
    if len(ns) == 1:
        return ns.pop()
    acc = 0
    for n, g in pairs:
        acc = b_or(acc, b_and(n, g))
    # outside `tot` the value is irrelevant; keep it false there (guards are disjoint)
    return acc


def merge_coll(pairs, tot):
    ps = [v.a[1] for v, _ in pairs]
    k = 0
    while all(len(p) > k for p in ps) and all(p[k] is ps[0][k] for p in ps):
        k += 1
    rest = []
    for (v, n), p in zip(pairs, ps):
        for piece in p[k:]:
            if any(q.op != "piece" for q in p[k:]):
                return None
            rest.append(mk("piece", piece.a[0], b_and(piece.a[1], n), piece.a[2]))
    # identical pieces under different guards are joined
    merged = []
    for r in rest:
        for i, m in enumerate(merged):
            if m.a[0] == r.a[0] and m.a[2] is r.a[2]:
                merged[i] = mk("piece", m.a[0], b_or(m.a[1], r.a[1]), m.a[2])
                break
        else:
            merged.append(r)
    return mk("coll", pairs[0][0].a[0], ps[0][:k] + tuple(merged))


def ite(n, a, b):
    if n == 1 or a is b:
        return a
    if n == 0:
        return b
    return choice([(a, n), (b, b_not(n))])


def lift(f, v, limit=24):
    if v.op == "choice":
        vs = alts(v)
        return choice([(f(x), n) for x, n in vs])
    return f(v)


def lift2(f, a, b, limit=36):
    aa, bb = alts(a), alts(b)
    if len(aa) == 1 and len(bb) == 1:
        return f(a, b)
    if len(aa) * len(bb) > limit:
        return f(a, b)
    out = []
    for x, n in aa:
        for y, m in bb:
            k = b_and(n, m)
            if k:
                out.append((f(x, y), k))
    return choice(out)


ADTS = {}     # path -> info (from the dump)


def variants(adt):
    i = ADTS.get(adt)
    if i is None:
        if adt == OPT:
            return ["None", "Some"]
        if adt == RES:
            return ["Ok", "Err"]
        return None
    return [v["n"] for v in i["v"]]


def is_node(t, adt, var):
    """guard: value t is variant var of adt"""
    if t.op == "V":
        return 1 if t.a[1] == var else 0
    if t.op == "choice":
        r = 0
        for v, n in alts(t):
            r = b_or(r, b_and(n, is_node(v, adt, var)))
        return r
    if t.op == "pwith":
        return is_node(t.a[0], adt, var)
    if t.op == "cmp":
        if var == "Equal":
            return eq(t.a[0], t.a[1])
        return lt(t.a[0], t.a[1]) if var == "Less" else lt(t.a[1], t.a[0])
    if t.op == "rev_cmp":
        return is_node(t.a[0], adt, {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[var])
    vs = variants(adt)
    if vs is None:
        return atom(mk("is", t, adt, var))
    if adt == OPT and t.op == "call" and t.a[0] in ("find", "rfind") and len(t.a) == 3 and t.a[2].op == "pred":
        e = elem(mk("call", "chars", t.a[1]))
        x = exists((e,), subst_node(as_node(t.a[2].a[0]), {mk("sym", "$c"): e}))
        return x if var == "Some" else b_not(x)
    if adt == OPT:
        x = atom(mk("is", t, adt, "Some"))
        return x if var == "Some" else b_not(x)
    if adt == RES:
        x = atom(mk("is", t, adt, "Ok"))
        return x if var == "Ok" else b_not(x)
    if len(vs) == 1:
        return 1
    i = vs.index(var)
    r = 1
    for w in vs[:i]:
        r = b_and(r, b_not(atom(mk("is", t, adt, w))))
    if i < len(vs) - 1:
        r = b_and(r, atom(mk("is", t, adt, var)))
    return r


def proj(t, adt, var, field):
    """payload field of t assuming it is variant var"""
    if t.op == "V":
        if t.a[1] != var:
            return mk("undef")
        if field in t.a[2]:
            return t.a[3 + t.a[2].index(field)]
        return mk("proj", t, var, field)
    if t.op == "choice":
        out = []
        for v, n in alts(t):
            m = b_and(n, is_node(v, adt, var))
            if m:
                out.append((proj(v, adt, var, field), m))
        if not out:
            return mk("undef")
        vals = {}
        for v, n in out:
            vals[v] = b_or(vals.get(v, 0), n)
        if len(vals) == 1:
            return next(iter(vals))
        # only the space where t is that variant matters
        care = b_or(*vals.values())
        return choice_care(list(vals.items()), care)
    if t.op == "pwith":
        base, a2, v2, f2, val = t.a
        if v2 == var and f2 == field:
            return val
        return proj(base, adt, var, field)
    return mk("proj", t, var, field)


def field(t, n):
    if t.op == "V":
        if n in t.a[2]:
            return t.a[3 + t.a[2].index(n)]
        return mk("field", t, n)
    if t.op == "tup":
        i = int(n)
        return t.a[i] if i < len(t.a) else mk("field", t, n)
    if t.op == "choice":
        return choice([(field(v, n), g) for v, g in alts(t)])
    if t.op == "with":
        base, comp, val = t.a
        if comp == n:
            return val
        return field(base, n)
    if n == "weight" and t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] == "raw_nodes":
        return index_at(t.a[0].a[1], t.a[1])
    return mk("field", t, n)


def set_comp(base, comp, val):
    """base with one component (field name, variant field or index) replaced"""
    if isinstance(comp, str):
        if base.op == "V" and comp in base.a[2]:
            i = base.a[2].index(comp)
            vals = list(base.a[3:])
            vals[i] = val
            return mk("V", base.a[0], base.a[1], base.a[2], *vals)
        if base.op == "tup" and comp.isdigit() and int(comp) < len(base.a):
            vals = list(base.a)
            vals[int(comp)] = val
            return mk("tup", *vals)
        if base.op == "with" and base.a[1] == comp:
            base = base.a[0]
        if field(base, comp) is val:
            return base
        return mk("with", base, comp, val)
    if comp[0] == "p":
        _, adt, var, f = comp
        if base.op == "V" and base.a[1] == var and f in base.a[2]:
            return set_comp(base, f, val)
        if base.op == "choice":
            return choice([(set_comp(v, comp, val) if is_node(v, adt, var) != 0 else v, g) for v, g in alts(base)])
        if proj(base, adt, var, f) is val:
            return base
        return mk("pwith", base, adt, var, f, val)
    if comp[0] == "i":
        if base.op == "choice":
            return choice([(set_comp(v, comp, val), g) for v, g in alts(base)])
        if base.op == "store" and base.a[1] is comp[1]:
            base = base.a[0]
        return mk("store", base, comp[1], val)
    if comp[0] == "k":
        if base.op == "put" and base.a[1] is comp[1]:
            base = base.a[0]
        return mk("put", base, comp[1], val)
    raise ValueError(comp)


def get_comp(t, comp):
    if isinstance(comp, str):
        return field(t, comp)
    if comp[0] == "p":
        return proj(t, comp[1], comp[2], comp[3])
    if comp[0] == "i":
        return index_at(t, comp[1])
    if comp[0] == "k":
        return proj(map_get(t, comp[1]), OPT, "Some", "0")
    raise ValueError(comp)


def map_get(m, k):
    """optional value of key k"""
    if m.op == "choice":
        return lift(lambda x: map_get(x, k), m)
    if k.op == "choice":
        return lift(lambda x: map_get(m, x), k)
    if m.op == "put":
        if m.a[1] is k:
            return some(m.a[2])
        return ite(eq(m.a[1], k), some(m.a[2]), map_get(m.a[0], k))
    if m.op == "rm":
        if m.a[1] is k:
            return NONE
        return ite(eq(m.a[1], k), NONE, map_get(m.a[0], k))
    if m.op == "coll":
        if not m.a[1]:
            return NONE
        if all(p.op == "piece" and not p.a[0] and p.a[2].op == "tup" for p in m.a[1]):
            r = NONE
            for p in m.a[1]:
                r = ite(b_and(p.a[1], eq(p.a[2].a[0], k)), some(p.a[2].a[1]), r)
            return r
    return mk("get", m, k)


def map_grow(op, m, pieces):
    """map with the entries put (mapext) or added where absent (mapadd)"""
    if m.op == "choice":
        return choice([(map_grow(op, x, pieces), g) for x, g in alts(m)])
    out = []
    same = True
    for p in pieces:
        es, n, kv = p.a
        if kv.op != "tup" or len(kv.a) != 2:
            kv = mk("tup", field(kv, "0"), field(kv, "1"))
        k, v = kv.a
        has = is_node(map_get(m, k), OPT, "Some")
        key = mk("sym", "$key")
        # one value per key: the order of the entries does not matter
        once = len(es) == 1 and k is field(es[0], "0") or not mentions(subst(v, {k: key}), frozenset(es))
        if has <= 1 or len(support(has)) != 1:
            same = False
        elif op == "mapadd" or once and implies(n, b_not(has)):
            n = cofactor(n, next(iter(support(has))), 0)
        else:
            same = False
        out.append(piece(es, n, kv))
    if op == "mapext" and same:
        op = "mapadd"
    elif op == "mapext":
        out = [piece(p.a[0], p.a[1], q.a[2]) for p, q in zip(pieces, out)]
    return mk(op, m, coll("vec", out))


def as_node(v):
    """boolean value -> BDD"""
    if v.op == "b":
        return v.a[0]
    if v.op == "choice":
        r = 0
        for x, n in alts(v):
            r = b_or(r, b_and(n, as_node(x)))
        return r
    if v.op == "undef":
        return 0
    return atom(v)


# ---- integers in linear normal form
def lin_parts(t):
    if t.op == "c" and t.a[0] == "int":
        return t.a[1], {}
    if t.op == "lin":
        return t.a[0], dict(zip(t.a[2:], t.a[1]))
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    items = sorted(d.items(), key=lambda p: p[0].id)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, tuple(v for _, v in items), *[k for k, _ in items])


def add(a, b, s=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(ca + s * cb, d)


def isint(t):
    return t.op == "c" and t.a[0] == "int"


def is_pos(x):
    """a position returned by a string search"""
    return x.op == "proj" and x.a[1] == "Some" and x.a[0].op == "call" and x.a[0].a[0] in ("find", "rfind") and len(x.a[0].a) == 3


def pat_len(p):
    """minimal length of what a pattern matches"""
    return len(p.a[1].encode()) if p.op == "c" and isinstance(p.a[1], str) else 1


def gt_const(x, c):
    """node of x > c (c python int)"""
    if isint(x):
        return 1 if x.a[1] > c else 0
    if is_pos(x):
        if c < 0:
            return 1
        if c == 0:
            return b_not(eq(x, I(0)))
    if x.op == "lin":
        cc, d = lin_parts(x)
        if cc and len(d) >= 1:
            return gt_const(mk_lin(0, d), c - cc)
        if len(d) == 2:
            # len(s) - find(s, p) is at least len(p)
            for f in d:
                if is_pos(f) and d == {f: -1, length(f.a[0].a[1]): 1}:
                    m = pat_len(f.a[0].a[2])
                    if c < m:
                        return 1
                    if c == m:
                        return b_not(eq(x, I(m)))
                if is_pos(f) and d == {f: 1, length(f.a[0].a[1]): -1}:
                    m = pat_len(f.a[0].a[2])
                    if c >= -m:
                        return 0
                    if c == -m - 1:
                        return eq(x, I(-m))
        if c in (0, -1) and sorted(d.values()) == [-1, 1]:
            y = next(k for k, n in d.items() if n == 1)
            z = next(k for k, n in d.items() if n == -1)
            return lt(z, y) if c == 0 else b_not(lt(y, z))
        lead = min(d, key=lambda k: k.id)
        if d[lead] < 0:
            return b_not(gt_const(mk_lin(0, {k: -n for k, n in d.items()}), -c - 1))
    if x.op == "choice":
        r = 0
        for v, n in alts(x):
            r = b_or(r, b_and(n, gt_const(v, c)))
        return r
    if x.op in ("count", "len"):
        if c < 0:
            return 1
        if c == 0:
            return nonempty(x.a[0]) if x.op == "len" else exists(x.a[0], x.a[1])
    return atom(mk("gt", x, c))


def lt(a, b):
    """node of a < b"""
    if isint(a):
        return lift_node(lambda y: gt_const(y, a.a[1]), b)
    if isint(b):
        return b_not(lift_node(lambda y: gt_const(y, b.a[1] - 1), a))
    if a.op == "choice" or b.op == "choice":
        r = 0
        for x, n in alts(a):
            for y, m in alts(b):
                if x.op == "choice" or y.op == "choice":
                    continue
                r = b_or(r, b_and(n, m, lt(x, y)))
        return r
    if a.op == "lin" or b.op == "lin":
        return gt_const(add(b, a, -1), 0)
    return atom(mk("lt", a, b))


def lift_node(f, v):
    if v.op == "choice":
        r = 0
        for x, n in alts(v):
            r = b_or(r, b_and(n, f(x)))
        return r
    return f(v)


def eq(a, b):
    """node of a == b"""
    if a is b:
        return 1
    if a.op == "c" and b.op == "c":
        return 1 if a.a[1] == b.a[1] and a.a[0] == b.a[0] else 0
    if a.op == "choice" or b.op == "choice":
        aa, bb = alts(a), alts(b)
        if len(aa) * len(bb) <= 64:
            r = 0
            for x, n in aa:
                for y, m in bb:
                    k = b_and(n, m)
                    if k:
                        r = b_or(r, b_and(k, eq(x, y)))
            return r
    if a.op == "b" or b.op == "b":
        return b_xnor(as_node(a), as_node(b))
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return b_and(*[eq(x, y) for x, y in zip(a.a, b.a)])
    for x, y in ((a, b), (b, a)):
        if x.op == "V" and (variants(x.a[0]) is None or len(variants(x.a[0])) != 1 or y.op == "V"):
            r = is_node(y, x.a[0], x.a[1])
            for i, n in enumerate(x.a[2]):
                if r == 0:
                    break
                r = b_and(r, eq(x.a[3 + i], proj(y, x.a[0], x.a[1], n)))
            return r
    for x, y in ((a, b), (b, a)):
        if x.op in ("len", "count") and isint(y) and y.a[1] == 0:
            return b_not(gt_const(x, 0))
    for x, y in ((a, b), (b, a)):
        if y.op == "c" and y.a == ("str", "") and x.op == "slice":
            return eq(x.a[1], x.a[2])
    if a.op == "lin" or b.op == "lin":
        d = add(a, b, -1)
        if isint(d):
            return 1 if d.a[1] == 0 else 0
        c, m = lin_parts(d)
        lead = min(m, key=lambda x: x.id)
        if m[lead] < 0:
            c, m = -c, {k: -x for k, x in m.items()}
        if c == 0 and sorted(m.values()) == [-1, 1]:
            a, b = m.keys()
        else:
            a, b = mk_lin(0, m), I(-c)
            if isint(b) and a.op in ("len", "count") and b.a[1] == 0:
                return eq(a, b)
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


# ---- collections and quantifiers
def elem(src, k=0):
    return mk("elem", src, k)


def piece(elems, node, val):
    return mk("piece", tuple(elems), node, val)


def coll(kind, pieces):
    if any(p.op == "piece" and is_ident_piece(p) and p.a[2].a[0].op == "coll" for p in pieces):
        pieces = [q for p in pieces for q in (p.a[2].a[0].a[1] if p.op == "piece" and is_ident_piece(p) and p.a[2].a[0].op == "coll" else (p,))]
    return mk("coll", kind, tuple(p for p in pieces if p.op != "piece" or p.a[1] != 0 and not any(e.a[0].op == "coll" and not e.a[0].a[1] for e in p.a[0])))


def see_through(v):
    """the same elements in another order"""
    while v.op in ("sorted", "dedup", "rev"):
        v = v.a[0]
    return v


def unorder(elems, node):
    """order-independent form of generators"""
    ren = {}
    out = []
    for e in elems:
        s = subst(e.a[0], ren) if ren else e.a[0]
        ne = elem(see_through(s), e.a[1])
        out.append(ne)
        if ne is not e:
            ren[e] = ne
    if ren:
        node = subst_node(node, ren)
    return tuple(out), node


def nonempty(v):
    v = see_through(v)
    if v.op == "coll":
        if all(p.op == "piece" for p in v.a[1]):
            return b_or(*[exists(p.a[0], p.a[1]) for p in v.a[1]])
    if v.op == "choice":
        return lift_node(nonempty, v)
    if v.op == "call" and v.a[0] in ("chars", "bytes", "char_indices") and len(v.a) == 2:
        return nonempty(v.a[1])
    if v.op == "slice":
        return lt(v.a[1], v.a[2])
    return atom(mk("nonempty", v))


def mentions(t, sub, _memo=None):
    """does term t mention any term of the set sub (free)?"""
    memo = {} if _memo is None else _memo

    def gn(n):
        return any(go(_atoms[v]) for v in support(n))

    def go(x):
        if x in sub:
            return True
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = False
        r = False
        if x.op == "b":
            r = gn(x.a[0])
        elif x.op == "choice":
            r = any(gn(n) for n in x.a[0]) or any(go(y) for y in x.a[1:])
        elif x.op in ("exists", "count"):
            r = gn(x.a[1]) or any(go(e.a[0]) for e in x.a[0])
        elif x.op in ("fst", "lst"):
            r = gn(x.a[1]) or any(go(e.a[0]) for e in x.a[0]) or False
        elif x.op == "piece":
            r = gn(x.a[1]) or any(go(e.a[0]) for e in x.a[0]) or go(x.a[2])
        elif x.op == "coll":
            r = any(go(p) for p in x.a[1])
        else:
            for y in x.a:
                if isinstance(y, T):
                    if go(y):
                        r = True
                        break
                elif isinstance(y, tuple):
                    if any(isinstance(z, T) and go(z) for z in y):
                        r = True
                        break
        memo[x] = r
        return r
    return go(t)


_depc = {}


def node_mentions(n, sub):
    key = (n, sub)
    r = _depc.get(key)
    if r is None:
        memo = {}
        r = any(mentions(_atoms[v], sub, memo) for v in support(n))
        _depc[key] = r
    return r


_exc = {}


def see_any(e):
    return True


def exists(elems, node):
    """BDD of: some assignment of the generators satisfies node"""
    elems = tuple(elems)
    if node == 0:
        return 0
    if not elems:
        return node
    key = (elems, node)
    r = _exc.get(key)
    if r is not None:
        return r
    if any(e.a[0].op in ("sorted", "dedup", "rev") for e in elems) or any(True for e in elems[1:] if see_any(e)):
        ne, nn = unorder(elems, node)
        if ne != elems:
            r = _exc[key] = exists(ne, nn)
            return r
    es = frozenset(elems)
    free = [v for v in sorted(support(node)) if not mentions(_atoms[v], es)]
    if node == 1:
        if len(elems) == 1:
            r = nonempty(elems[0].a[0])
        else:
            inner = exists(elems[1:], 1)
            r = exists(elems[:1], inner)
    elif free and len(free) <= 10:
        v = free[0]
        r = b_ite(atom(_atoms[v]), exists(elems, cofactor(node, v, 1)), exists(elems, cofactor(node, v, 0)))
    elif len(elems) > 1:
        r = exists(elems[:1], exists(elems[1:], node))
    else:
        # membership test
        sup = sorted(support(node))
        e = elems[0]
        r = None
        if len(sup) == 1 and node == atom(_atoms[sup[0]]):
            a = _atoms[sup[0]]
            if a.op == "eq" and (a.a[0] is e or a.a[1] is e):
                other = a.a[1] if a.a[0] is e else a.a[0]
                if not mentions(other, es):
                    r = contains(e.a[0], other)
        if r is None:
            r = atom(mk("exists", elems, node))
    _exc[key] = r
    return r


def contains(c, x):
    c0 = see_through(c)
    if c0.op == "call" and c0.a[0] == "chars" and x.op == "c" and x.a[0] in ("str", "char"):
        return is_node(mk("call", "find", c0.a[1], S(x.a[1])), OPT, "Some")
    if c0.op == "coll" and all(p.op == "piece" for p in c0.a[1]) and x.op != "choice":
        r = 0
        for p in c0.a[1]:
            if not p.a[0]:
                r = b_or(r, b_and(p.a[1], eq(p.a[2], x)))
            elif is_ident_piece(p):
                r = b_or(r, contains(p.a[0][0].a[0], x))
            else:
                es, n, v = p.a
                if mentions(x, frozenset(es)):
                    ren = {}
                    nes = []
                    for e in es:
                        ne = elem(subst(e.a[0], ren), e.a[1] + 50)
                        nes.append(ne)
                        ren[e] = ne
                    n, v, es = subst_node(n, ren), subst(v, ren), tuple(nes)
                r = b_or(r, exists(es, b_and(n, eq(v, x))))
        return r
    if c0.op == "choice":
        return lift_node(lambda y: contains(y, x), c0)
    if x.op == "choice":
        return lift_node(lambda y: contains(c, y), x)
    if x.op == "V" and not x.a[2] and variants(x.a[0]) and len(variants(x.a[0])) > 1:
        e = elem(c0)
        return exists((e,), is_node(e, x.a[0], x.a[1]))
    return atom(mk("contains", c0, x))


# ---- substitution
def subst(t, m, memo=None):
    """capture-aware substitution of terms (m: dict T->T)"""
    if not m:
        return t
    memo = {} if memo is None else memo

    def gn(n):
        return b_compose(n, ga)

    def ga(a):
        return as_node(go(a))

    def bound(es):
        """mapping without the symbols bound by es"""
        return any(e in m for e in es)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ("c", "sym"):
            r = x
        elif op == "b":
            r = B(gn(x.a[0]))
        elif op == "choice":
            r = choice([(go(v), gn(n)) for v, n in alts(x)])
        elif op in ("exists", "count", "piece", "fst", "lst"):
            es = x.a[0]
            if bound(es):
                mm = {k: v for k, v in m.items() if k not in es}
                r = subst_binder(x, mm) if mm else x
            else:
                r = subst_binder(x, m, go, gn)
        elif op == "coll":
            ps = [go(p) for p in x.a[1]]
            r = coll(x.a[0], ps)
        else:
            na = []
            ch = False
            for y in x.a:
                if isinstance(y, T):
                    z = go(y)
                elif isinstance(y, tuple) and any(isinstance(q, T) for q in y):
                    z = tuple(go(q) if isinstance(q, T) else q for q in y)
                else:
                    z = y
                if z is not y and z != y:
                    ch = True
                na.append(z)
            r = rebuild(op, na) if ch else x
        memo[x] = r
        return r
    return go(t)


def subst_binder(x, m, go=None, gn=None):
    if go is None:
        mem = {}
        go = lambda t: subst(t, m, mem)
        gn = lambda n: b_compose(n, lambda a: as_node(subst(a, m, mem)))
    es = x.a[0]
    nes = []
    ren = {}
    for e in es:
        src = e.a[0]
        if ren:
            src = subst(src, ren)
        ns = go(src)
        ne = elem(ns, e.a[1])
        nes.append(ne)
        if ne is not e:
            ren[e] = ne
    nes = tuple(nes)

    def fin(n):
        n2 = gn(n)
        if ren:
            n2 = subst_node(n2, ren)
        return n2
    if x.op == "exists":
        return B(exists(nes, fin(x.a[1])))
    if x.op == "count":
        return mk("count", nes, fin(x.a[1]))
    if x.op == "piece":
        v = go(x.a[2])
        if ren:
            v = subst(v, ren)
        return mk("piece", nes, fin(x.a[1]), v)
    idx = es.index(x.a[2]) if x.a[2] in es else None
    return mk(x.op, nes, fin(x.a[1]), nes[idx] if idx is not None else go(x.a[2]))


def subst_node(n, m):
    mem = {}
    return b_compose(n, lambda a: as_node(subst(a, m, mem)))


def given(x, n):
    """a term where the conditions that n decides are replaced"""
    m = {}
    for v in support(n):
        if cofactor(n, v, 0) == 0:
            m[_atoms[v]] = B(1)
        elif cofactor(n, v, 1) == 0:
            m[_atoms[v]] = B(0)
    return subst(x, m)


def rebuild(op, a):
    if op == "eq":
        return B(eq(a[0], a[1]))
    if op == "is":
        return B(is_node(a[0], a[1], a[2]))
    if op == "proj":
        if a[0].op in ("V", "choice"):
            adt = a[0].a[0] if a[0].op == "V" else next((v.a[0] for v, _ in alts(a[0]) if v.op == "V"), OPT)
            return proj(a[0], adt, a[1], a[2])
        return mk("proj", *a)
    if op == "field":
        return field(a[0], a[1])
    if op == "gt":
        return B(gt_const(a[0], a[1]))
    if op == "lt":
        return B(lt(a[0], a[1]))
    if op == "lin":
        r = I(a[0])
        for c, t in zip(a[1], a[2:]):
            cc, d = lin_parts(t)
            r = add(r, mk_lin(cc * c, {k: v * c for k, v in d.items()}))
        return r
    if op == "nonempty":
        return B(nonempty(a[0]))
    if op == "contains":
        return B(contains(a[0], a[1]))
    if op == "at":
        return index_at(a[0], a[1])
    if op == "bin":
        return binop(a[0], a[1], a[2])
    if op == "get":
        return map_get(a[0], a[1])
    if op == "pwith":
        return set_comp(a[0], ("p", a[1], a[2], a[3]), a[4])
    if op == "with":
        return set_comp(a[0], a[1], a[2])
    if op == "slice":
        return slice_(a[0], a[1], a[2])
    if op == "len":
        return length(a[0])
    if op == "nth":
        return nth(a[0], a[1])
    if op == "V":
        return mk("V", *a)
    return mk(op, *a)


def index_at(base, idx):
    b = base
    if b.op == "choice" or idx.op == "choice":
        return lift2(index_at, b, idx)
    if idx.op == "idx":
        # the node a raw-node element stands for
        e = idx.a[0]
        src = e.a[0] if e.op == "elem" else (e.a[2].a[0] if e.op in ("fst", "lst") else None)
        while src is not None and src.op == "slice" and isint(src.a[1]) and src.a[1].a[1] == 0:
            src = src.a[0]
        if src is not None and src.op == "call" and src.a[0] == "raw_nodes" and src.a[1] is b:
            return field(e, "weight")
    if idx.op == "idx":
        e = idx.a[0]          # elem or fst term
        src = e.a[0] if e.op == "elem" else (e.a[2].a[0] if e.op in ("fst", "lst") else None)
        if src is not None:
            src = see_through(src)
            if src is see_through(b):
                return e
            if b.op == "coll" and len(b.a[1]) == 1 and b.a[1][0].op == "piece":
                p = b.a[1][0]
                if len(p.a[0]) == 1 and p.a[1] == 1 and see_through(p.a[0][0].a[0]) is src:
                    return subst(p.a[2], {p.a[0][0]: e})
    if b.op == "coll" and len(b.a[1]) == 1 and b.a[1][0].op == "piece":
        p = b.a[1][0]
        if len(p.a[0]) == 1 and p.a[1] == 1:
            return subst(p.a[2], {p.a[0][0]: mk("at", p.a[0][0].a[0], idx)})
    if b.op == "coll" and isint(idx) and all(q.op == "piece" and not q.a[0] and q.a[1] == 1 for q in b.a[1]):
        if 0 <= idx.a[1] < len(b.a[1]):
            return b.a[1][idx.a[1]].a[2]
    return mk("at", b, idx)


def length(v):
    b = v
    if v.op == "sorted":
        return length(v.a[0])
    if v.op == "choice":
        return lift(length, v)
    if v.op == "slice":
        return add(v.a[2], v.a[1], -1)
    if v.op == "coll" and all(p.op == "piece" for p in v.a[1]) and v.a[0] not in ("set", "map"):
        r = I(0)
        for p in v.a[1]:
            if not p.a[0]:
                r = add(r, ite(p.a[1], I(1), I(0))) if p.a[1] != 1 else add(r, I(1))
            elif len(p.a[0]) == 1 and p.a[1] == 1:
                r = add(r, length(p.a[0][0].a[0]))
            else:
                r = add(r, mk("count", p.a[0], p.a[1]))
        return r
    if v.op == "c" and v.a[0] == "str":
        return I(len(v.a[1].encode()))
    if v.op == "range":
        return add(v.a[1], v.a[0], -1)
    return mk("len", b)


def nth(v, i):
    """optional element at position i"""
    return ite(lt(i, length(v)), some(index_at(v, i)), NONE)


def slice_(s, lo, hi):
    if s.op == "choice" or lo.op == "choice" or hi.op == "choice":
        if s.op == "choice":
            return lift(lambda x: slice_(x, lo, hi), s)
        return lift2(lambda a, b: slice_(s, a, b), lo, hi)
    if isint(lo) and lo.a[1] == 0 and hi is length(s):
        return s
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.op == "c" and s.a[0] == "str" and isint(lo) and isint(hi):
        b = s.a[1].encode()[lo.a[1]:hi.a[1]]
        return S(b.decode("utf8", "replace"))
    return mk("slice", s, lo, hi)


def binop(op, a, b):
    if a.op == "choice" or b.op == "choice":
        return lift2(lambda x, y: binop(op, x, y), a, b)
    if isint(a) and isint(b):
        x, y = a.a[1], b.a[1]
        try:
            return I({"Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                      "Shl": lambda: x << y, "Shr": lambda: x >> y, "Div": lambda: x // y, "Rem": lambda: x % y}[op]())
        except (KeyError, ZeroDivisionError):
            pass
    if op == "BitAnd":
        for x, y in ((a, b), (b, a)):
            if isint(x) and y.op == "inot" and isint(y.a[0]):
                return I(x.a[1] & ~y.a[0].a[1])
    if op in ("BitOr", "BitAnd", "BitXor", "Mul"):
        if op == "BitOr":
            # flatten, fold constants
            parts, c = [], 0
            for z in (a, b):
                for q in (z.a[1:] if z.op == "bin" and z.a[0] == "BitOr" else (z,)):
                    if isint(q):
                        c |= q.a[1]
                    elif q not in parts:
                        parts.append(q)
            if not parts:
                return I(c)
            parts.sort(key=lambda q: q.id)
            if c:
                parts.append(I(c))
            if len(parts) == 1:
                return parts[0]
            return mk("bin", "BitOr", *parts)
        if a.id > b.id:
            a, b = b, a
    return mk("bin", op, a, b)


# ---- printing
def show_node(n, depth=6, width=6):
    if n == 0:
        return "false"
    if n == 1:
        return "true"
    # disjunction of paths (bounded)
    paths = []

    def go(x, acc):
        if len(paths) > width:
            return
        if x == 0:
            return
        if x == 1:
            paths.append(acc)
            return
        v, lo, hi = _nodes[x]
        go(hi, acc + [("", v)])
        go(lo, acc + [("!", v)])
    go(n, [])
    s = " | ".join("&".join(p + show(_atoms[v], depth - 1) for p, v in q) for q in paths[:width])
    if len(paths) > width:
        s += " | ..."
    return "{" + s + "}"


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "c":
        return repr(t.a[1])
    if t.op == "sym":
        return "$" + str(t.a[0])
    if t.op == "b":
        return show_node(t.a[0], d)
    if t.op == "V":
        n = t.a[1]
        if not t.a[2]:
            return n
        return n + "{" + ",".join(f"{k}:{show(v, d)}" for k, v in zip(t.a[2], t.a[3:])) + "}"
    if t.op == "field":
        return show(t.a[0], d) + "." + str(t.a[1])
    if t.op == "proj":
        return show(t.a[0], d) + "!" + t.a[1] + "." + str(t.a[2])
    if t.op == "is":
        return "is" + t.a[2] + "(" + show(t.a[0], d) + ")"
    if t.op == "eq":
        return "(" + show(t.a[0], d) + "==" + show(t.a[1], d) + ")"
    if t.op == "choice":
        return "<" + " ; ".join(show_node(n, d) + "=>" + show(v, d) for v, n in alts(t)) + ">"
    if t.op in ("exists", "count"):
        return t.op + "(" + ",".join(show(e, d) for e in t.a[0]) + ": " + show_node(t.a[1], d) + ")"
    if t.op in ("fst", "lst"):
        return t.op + "(" + show(t.a[2], d) + ": " + show_node(t.a[1], d) + ")"
    if t.op == "elem":
        return "elem(" + show(t.a[0], d) + (("#%d" % t.a[1]) if t.a[1] else "") + ")"
    if t.op == "piece":
        return "{" + show(t.a[2], d) + " for " + ",".join(show(e, d) for e in t.a[0]) + " if " + show_node(t.a[1], d) + "}"
    if t.op == "coll":
        return t.a[0] + "[" + ", ".join(show(p, d) for p in t.a[1]) + "]"
    if t.op == "lin":
        return "(" + "+".join((str(c) + "*" if c != 1 else "") + show(x, d) for c, x in zip(t.a[1], t.a[2:])) + "+" + str(t.a[0]) + ")"
    if t.op == "call":
        return str(t.a[0]) + "(" + ",".join(show(x, d) for x in t.a[1:]) + ")"
    return t.op + "(" + ",".join(show(x, d) for x in t.a) + ")"


def pick(op, elems, node, val):
    """first or last element that satisfies node; what the generators do not occur in only decides whether there is one"""
    es = frozenset(elems)
    if node > 1:
        for v in sorted(support(node)):
            if not mentions(_atoms[v], es):
                lo, hi = cofactor(node, v, 0), cofactor(node, v, 1)
                if lo == 0:
                    node = hi
                elif hi == 0:
                    node = lo
    return mk(op, tuple(elems), node, val)
