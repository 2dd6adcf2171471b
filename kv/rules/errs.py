"""Errors keep their cause and are handed on (C33)"""
import re
from ..ctx import rule
from ..lib import *

CAUSE = re.compile(r"(^|::|<)(\w*Error\w*|CMErr)(>|$)")


def error_types(a):
    r = []
    for b in a.p.bodies:
        if b.get("name") == "source" and (b.get("itrait") or "").endswith("error::Error"):
            r.append(norm_ty(b["self"]))
    return r


def shown(p, x):
    """a part of the text that is taken from x, or that depends on which alternative x is"""
    def part(y):
        while y.op in ("proj", "field"):
            y = y.a[0]
            if y is x:
                return True
        return False
    return any(part(y) for y in (p.a[2].a if p.a[2].op == "fmt" else (p.a[2],)) if isinstance(y, T)) or any(mentions(at, {x}) for at in atoms_in(p.a[1]))


@rule("C33")
def error_impls(a, rep):
    tys = error_types(a)
    if len(tys) < 2:
        rep.bad("source", "errors", "expected both error types to name their source, found %s" % tys)
    me = sym(0)
    for ty in tys:
        short = ty.replace("::errors", "")
        ad = a.adt(ty)
        src = a.run(a.method(ty, "source", trait="error::Error"))
        disp = a.methods(ty, "fmt", trait="fmt::Display")
        out = a.run(disp[0]).heap(1) if len(disp) == 1 else None
        for v in ad["v"]:
            n = is_node(me, ty, v["n"])
            site = "%s::%s" % (short, v["n"])
            causes = [f for f in v["f"] if CAUSE.search(f["ty"])]
            want = some(proj(me, ty, v["n"], causes[0]["n"])) if causes else NONE
            expect(rep, "source", site, src.v, want, n)
            if out is None or out.op != "coll":
                rep.unk("message", site, "the formatted text is not known")
                continue
            ps = [p for p in out.a[1] if not p.a[0] and b_and(p.a[1], n) != 0]
            for f in v["f"]:
                x = proj(me, ty, v["n"], f["n"])
                g = b_or(*[p.a[1] for p in ps if p.a[2] is x or p.a[2].op == "fmt" and any(y is x for y in p.a[2].a)
                           or shown(p, x)])
                expect_node(rep, "message", site + "." + f["n"], g, 1, n)
            g = b_or(*[p.a[1] for p in ps])
            expect_node(rep, "message", site, g, 1, n)
    for b in a.p.bodies:
        m = re.match(r"(?:std|core)::convert::From<(.*)>$", b.get("itraitfull") or "")
        if b.get("name") != "from" or not m or norm_ty(b.get("self") or "") not in tys:
            continue
        ty, srcty = norm_ty(b["self"]), norm_ty(m.group(1))
        r = a.run(b)
        var = [v for v in a.adt(ty)["v"] if len(v["f"]) == 1 and norm_ty(v["f"][0]["ty"]) == srcty]
        site = "%s: From<%s>" % (ty, srcty)
        if len(var) != 1:
            rep.unk("conversion", site, "no single variant for this cause")
            continue
        wrong = [(x, n) for x, n in alts(r.v) if x.op == "V" and x.a[0] == ty and x.a[1] != var[0]["n"] and n != 0]
        if wrong:
            rep.bad("conversion", site, "the cause becomes the error %s" % show(wrong[0][0], 3))
            continue
        expect(rep, "conversion", site, r.v, V(ty, var[0]["n"], (var[0]["f"][0]["n"],), sym(0)))


def result_type(a, ty):
    m = re.match(r"(?:std|core)::result::Result<(.*)>$", a.p.ty(ty))
    return m.group(1) if m else None


@rule("C33")
def propagation(a, rep):
    """a failed operation inside a function that can fail makes the function fail"""
    n = 0
    for b in a.p.bodies:
        if b["kind"] == "Closure" or "{closure" in b["path"] or b.get("derived") or not re.search(r"-> std::result::Result<", b.get("sig") or ""):
            continue
        if (b.get("itrait") or "").startswith("std::fmt::") or b.get("name") == "build":
            continue
        if b.get("name") == "build_with_metadata":
            continue        # what it calls cannot fail but for the look-ups of C36
        try:
            r = a.run(b)
        except Undecided as ex:
            rep.unk("propagated", b["path"], str(ex))
            continue
        for e in r.evs("call", "pure"):
            if not e.node or "ty" not in e.node or not isinstance(e.res, T):
                continue
            rt = result_type(a, e.node["ty"])
            if rt is None or rt.endswith("fmt::Error") or rt.endswith("usize"):
                continue
            site = "%s: %s" % (b["path"], e.name)
            g = outside(r, e, b_and(e.guard(), is_node(e.res, RES, "Err")))
            if e.name in ("canonicalize", "var") or e.name.startswith("cfg_expr_parse"):
                continue        # documented fall-backs: the path as given, `cargo`, an unparsable cfg is never true
            if g == 0:
                continue
            n += 1
            bad = is_node(r.v, RES, "Err")
            if implies(g, bad):
                rep.ok("propagated", site)
            elif any(e2.kind == "panic" and implies(g, e2.guard()) for e2 in r.en.events):
                rep.ok("propagated", site)
            elif taints(b_and(g, b_not(bad))):
                rep.unk("propagated", site, "the model does not follow the error")
            else:
                rep.bad("propagated", site, "this operation can fail while the function still reports success")
    rep.check(n > 0, "propagated", "fallible operations", "none was found")
    b = a.method("builder::Builder", "build")
    r = a.run(b, opaque=[r"::exec$", r"build_with_metadata$"])
    ex = [e for e in r.evs("call") if e.name.endswith("::exec")]
    if len(ex) != 1:
        rep.unk("build", "Builder::build", "no single execution of the command")
        return
    x = ex[0].res
    failed = is_node(x, RES, "Err")
    E = "errors::Error" if a.adt("errors::Error") else "Error"
    expect(rep, "build", "Builder::build", r.v, V(RES, "Err", ("0",), V(E, "Metadata", ("0",), proj(x, RES, "Err", "0"))), failed)
