"""Crate ids: C21 (order, equality, hash) and C22 (splitting)"""
from ..ctx import rule
from ..lib import *


def kid(a, k):
    """a symbolic crate id with its three component ranges"""
    rp = a.field_by_type("Kid", r"String")
    cs = a.field_by_type("Kid", r"\[\(usize, usize\); 3\]")
    s = mk("sym", "repr%d" % k)
    comps = [(mk("sym", "b%d_%d" % (k, i)), mk("sym", "e%d_%d" % (k, i))) for i in range(3)]
    arr = coll("vec", [piece((), 1, mk("tup", b, e)) for b, e in comps])
    vals = {rp: s, cs: arr}
    names = [f["n"] for f in a.adt("Kid")["v"][0]["f"]]
    if set(names) != {rp, cs}:
        raise Undecided("Kid", "unexpected fields")
    return V("Kid", "Kid", tuple(names), *[vals[n] for n in names]), [slice_(s, b, e) for b, e in comps]


def cmp_(x, y):
    return mk("cmp", x, y)


@rule("C21")
def order(a, rep):
    k, c = kid(a, 0)
    o, d = kid(a, 1)
    for name, i in (("name", 0), ("version", 1), ("source", 2)):
        expect(rep, "component", "Kid::" + name, a.run(a.method("Kid", name), [k]).v, c[i])
    same_ = [as_node(B(eq(x, y))) for x, y in zip(c, d)]
    EQ = V(ORD, "Equal")
    want = EQ
    for x, y, n in reversed(list(zip(c, d, same_))):
        want = ite(n, want, cmp_(x, y))
    r = a.run(a.method("Kid", "cmp", trait="cmp::Ord"), [k, o])
    expect(rep, "total-order", "Kid::cmp", r.v, want)
    r = a.run(a.method("Kid", "partial_cmp", trait="cmp::PartialOrd"), [k, o])
    expect(rep, "partial-order", "Kid::partial_cmp", r.v, some(want))
    alleq = b_and(*same_)
    for b in a.methods("Kid", "eq", trait="cmp::PartialEq", full="PartialEq<Kid>") or a.methods("Kid", "eq", trait="cmp::PartialEq"):
        r = a.run(b, [k, o])
        expect_node(rep, "equality", "Kid::eq", as_node(r.v), alleq)
    for m in ("ne", "lt", "le", "gt", "ge", "max", "min", "clamp"):
        for tr in ("cmp::PartialEq", "cmp::PartialOrd", "cmp::Ord"):
            for b in a.methods("Kid", m, trait=tr):
                rep.unk("derived-order", "Kid::" + m, "a hand-written override of a provided comparison method")
    # the hash may only look at what equality compares
    b = a.method("Kid", "hash", trait="hash::Hash")
    r = a.run(b, [k, sym(9)])
    m = {x: mk("sym", "comp%d" % i) for i, x in enumerate(c)}
    evs = r.evs("hash")
    if not evs:
        rep.ok("hash-inputs", "Kid::hash", "constant hash")
    for e in evs:
        args = e.args
        for x in args:
            y = subst(x, m)
            leak = [s for s in syms_of(y) if not s.startswith("comp")]
            gl = [s for s in syms_of(B(subst_node(e.guard(), m))) if not s.startswith("comp")]
            if not leak and not gl:
                rep.ok("hash-inputs", "Kid::hash")
            elif taints(x):
                rep.unk("hash-inputs", "Kid::hash", "hashes %s" % show(x, 6))
            else:
                rep.bad("hash-inputs", "Kid::hash", "hashes %s, which equality does not compare, so equal ids can hash differently" % show(x, 6))
    for e in r.evs("call"):
        if any(x is sym(9) for x in e.args):
            rep.unk("hash-inputs", "Kid::hash", "the hasher is passed to %s" % e)
