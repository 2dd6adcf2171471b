"""Serialization (C30) and enum names (C31)"""
from ..ctx import rule
from ..lib import *
from .de import KEYS, REQ, DEF

SER = ["all-features", "serialize"]


def oks(n, but=()):
    """guard in which every serializer call succeeded"""
    def f(at):
        if at.op == "is" and at.a[1] == RES and at.a[0].op == "call" and str(at.a[0].a[0]).startswith("serialize_"):
            return (at.a[2] == "Ok") != (at.a[0] in but)
        return None
    return fix_atoms(n, f)


def left_out(kind, v):
    """when parsing an absent key gives the same value"""
    if kind is REQ or kind in ("members", "null"):
        return 0
    if isinstance(kind, T):
        return b_xnor(as_node(v), as_node(kind)) if kind is B(1) else as_node(B(eq(v, kind)))
    if kind == "vec":
        return b_not(nonempty(v))
    d = DEF[kind]
    return is_node(v, d.a[0], d.a[1])


class Entry:
    """one key and value given to the serializer: the calls, in one go or key and value apart"""

    def __init__(self, key, val, *evs):
        self.key, self.val, self.evs = key, val, evs

    def guard(self):
        return self.evs[-1].guard()


def entries(r):
    out, last = [], None
    for e in r.evs("call"):
        if e.name in ("serialize_entry", "serialize_field"):
            out.append(Entry(e.args[1], e.args[2], e))
        elif e.name == "serialize_key":
            if last is not None:
                return None
            last = e
        elif e.name == "serialize_value":
            if last is None or not n_eq(oks(last.guard()), oks(e.guard())):
                return None
            out.append(Entry(last.args[1], e.args[1], last, e))
            last = None
        elif e.name.startswith("serialize_") and e.name not in ("serialize_map", "serialize_struct"):
            return None
    return out if last is None else None


@rule("C30", cfg=SER)
def written(a, rep):
    for ty, table in KEYS.items():
        r = a.run(a.method("cm::" + ty, "serialize", trait="serde::Serialize"))
        evs = entries(r)
        if evs is None or not evs and {e.name for e in r.evs("call")} != {"serialize_map", "end"}:
            raise Undecided("Serialize for " + ty, "entries are not written one by one")
        me = sym(0)
        want = {}
        for k, f, kind in table:
            v, g = field(me, f), 1
            if kind == "members":
                inner = field(v, "0")
                v, g = some_val(inner), some_node(inner)
            want[k] = (f, v, g, kind)
        seen = {}
        for e in evs:
            key, val = e.key, text_of(e.val)
            g = oks(e.guard())
            if key.op != "c" or key.a[0] != "str":
                rep.unk("key", ty, "a key that is not a constant: %s" % show(key, 5))
                continue
            k = key.a[1]
            if k not in want:
                rep.bad("key", "%s.%s" % (ty, k), "a key that parsing does not know is written")
                continue
            f, v, need, kind = want[k]
            if b_and(g, seen.get(k, 0)) != 0:
                rep.bad("once", "%s.%s" % (ty, k), "the key can be written twice")
            seen[k] = b_or(seen.get(k, 0), g)
            if kind == "members" and val.op != "V" and val is not v:
                # Option written as is: null for an absent list does not parse back
                expect(rep, "value", "%s.%s" % (ty, k), val, v, g)
            else:
                expect(rep, "value", "%s.%s" % (ty, k), val, v, g)
        for k, (f, v, need, kind) in want.items():
            g = seen.get(k, 0)
            if kind == "null":
                x = [at for at in (atoms_in(g) if g > 1 else [])]
                nul = [at for at in x if at.op == "call" and at.a[0] == "is_null" and at.a[1] is v or at.op == "is" and at.a[2] == "Null" and at.a[0] is v]
                for at in nul:
                    g = cofactor_atom(g, at, 0)
            # a value that an absent key stands for may be left out
            expect_node(rep, "written", "%s.%s" % (ty, k), g, need, b_not(b_and(need, left_out(kind, v))))
        # an error of the serializer is returned, never swallowed
        for n_, e in [(n_, e) for n_ in evs for e in n_.evs]:
            if e.res is None:
                continue
            n = is_node(r.v, RES, "Ok")
            bad = fix_atoms(n, lambda at: False if at.op == "is" and at.a[0] is e.res and at.a[1] == RES else None)
            ended = fix_atoms(b_and(bad, e.guard()), lambda at: False if at.op == "is" and at.a[0] is e.res and at.a[1] == RES else None)
            expect_node(rep, "error-returned", "%s.%s" % (ty, n_.key.a[1] if n_.key.op == "c" else "?"), ended, 0)
        ends = [e for e in r.evs("call") if e.name == "end"]
        rep.check(len(ends) >= 1 and b_or(*[oks(e.guard()) for e in ends]) == 1, "ended", ty, "the map is not always ended")
    for ty in ("PackageId", "Source"):
        r = a.run(a.method("cm::" + ty, "serialize", trait="serde::Serialize"))
        e = r.evs("call")
        ok_ = len(e) == 1 and e[0].name in ("serialize_str", "serialize", "collect_str", "serialize_newtype_struct")
        if not ok_:
            rep.unk("text", ty, "not a single string")
        else:
            expect(rep, "text", ty, e[0].args[-1] if e[0].name != "serialize" else e[0].args[0], field(sym(0), "repr"))


def text_of(v):
    """a version that is given as its text: it serializes as its text"""
    if v.op == "choice":
        return choice([(text_of(x), g) for x, g in alts(v)])
    if v.op == "V" and v.a[0] == OPT and v.a[1] == "Some" and v.a[3].op in ("call", "fmt") and (v.a[3].op == "fmt" or v.a[3].a[0] == "to_string"):
        x = v.a[3].a[-1]
        if isinstance(x, T) and len(v.a[3].a) == (1 if v.a[3].op == "fmt" else 2) and x.op == "proj" and x.a[0].op == "field" and x.a[0].a[1] == "rust_version":
            return some(x)
    return v


def cofactor_atom(n, at, v):
    return fix_atoms(n, lambda x: bool(v) if x is at else None)


NAMES = {
    "cm::DependencyKind": {"Normal": "normal", "Development": "dev", "Build": "build"},
    "cm::TargetKind": {"Bench": "bench", "Bin": "bin", "CustomBuild": "custom-build", "CDyLib": "cdylib", "DyLib": "dylib",
                       "Example": "example", "Lib": "lib", "ProcMacro": "proc-macro", "RLib": "rlib", "StaticLib": "staticlib", "Test": "test"},
    "cm::CrateType": {"Bin": "bin", "CDyLib": "cdylib", "DyLib": "dylib", "Lib": "lib", "ProcMacro": "proc-macro", "RLib": "rlib", "StaticLib": "staticlib"},
    "cm::Edition": {"E2015": "2015", "E2018": "2018", "E2021": "2021", "E2024": "2024"},
}


def okv(x):
    return V(RES, "Ok", ("0",), x)


def parse_table(rep, what, ty, names, value, txt):
    """value(S) is the result of parsing the text S"""
    short = ty.split("::")[-1]
    none = 1
    for var, n in names.items():
        expect(rep, what, "%s %s" % (short, n), value(S(n)), okv(V(ty, var)))
        none = b_and(none, b_not(eq(txt, S(n))))
    expect_node(rep, what + "-unknown", short, is_node(value(txt), RES, "Err"), 1, none)


@rule("C31")
def names(a, rep):
    for ty, names in NAMES.items():
        short = ty.split("::")[-1]
        if set(names) != {v["n"] for v in a.adt(ty)["v"]}:
            rep.unk("variants", short, "the variants changed")
        for b in a.methods(ty, "from_str", trait="FromStr"):
            parse_table(rep, "parsed", ty, names, lambda s, b=b: a.run(b, [s]).v, mk("sym", "text"))
        r = a.run(a.method(ty, "deserialize", trait="Deserialize"))
        d = [e for e in r.evs("call") if e.name == "deserialize"]
        if len(d) != 1:
            rep.unk("deserialized", short, "no single inner deserialization")
        else:
            x, t_ = d[0].res, a.p.ty(d[0].node["ty"])
            opt = "Result<std::option::Option<" in t_
            parse_table(rep, "deserialized", ty, names,
                        lambda s: subst(r.v, {x: okv(some(s) if opt else s)}), mk("sym", "text"))
            expect(rep, "deserialize-error", short, subst(r.v, {x: V(RES, "Err", ("0",), mk("sym", "error"))}), V(RES, "Err", ("0",), mk("sym", "error")))
        for b in a.methods(ty, "as_str"):
            for var, n in names.items():
                expect(rep, "as_str", "%s %s" % (short, n), a.run(b, [V(ty, var)]).v, S(n))
        for b in a.methods(ty, "fmt", trait="fmt::Display"):
            for var, n in names.items():
                displays(a, rep, "displayed", "%s %s" % (short, n), b, V(ty, var), n)
        if a.cfg in SER:
            b = a.method(ty, "serialize", trait="serde::Serialize")
            for var, n in names.items():
                r = a.run(b, [V(ty, var), sym(1)])
                e = [x for x in r.evs("call") if x.name in ("serialize_str", "collect_str")]
                if len(e) != 1:
                    rep.unk("serialized", "%s %s" % (short, n), "not a single string")
                    continue
                expect(rep, "serialized", "%s %s" % (short, n), e[0].args[1], S(n))
    # the kinds of metadata and graph correspond
    b = a.method("DepKind", "from", trait="convert::From")
    pairs = {"Normal": "Normal", "Development": "Dev", "Build": "Build"}
    for x, y in pairs.items():
        expect(rep, "kind-conversion", x, a.run(b, [V("cm::DependencyKind", x)]).v, V("DepKind", y))
    for b in a.methods("DepKind", "eq", trait="cmp::PartialEq", full="PartialEq<cm::DependencyKind>"):
        for x, y in pairs.items():
            for z in pairs.values():
                expect_node(rep, "kind-comparison", "%s==%s" % (z, x), as_node(a.run(b, [V("DepKind", z), V("cm::DependencyKind", x)]).v), 1 if y == z else 0)
    for b in a.methods("cm::DependencyKind", "eq", trait="cmp::PartialEq", full="PartialEq<DepKind>"):
        for x, y in pairs.items():
            for z in pairs.values():
                expect_node(rep, "kind-comparison", "%s==%s" % (x, z), as_node(a.run(b, [V("cm::DependencyKind", x), V("DepKind", z)]).v), 1 if y == z else 0)
    b = a.method("DepKind", "fmt", trait="fmt::Display")
    for y, n in (("Normal", ""), ("Build", "build"), ("Dev", "dev")):
        displays(a, rep, "displayed", "DepKind " + y, b, V("DepKind", y), n)


def displays(a, rep, rl, site, b, v, n):
    """formatting writes exactly n"""
    f = mk("sym", "f")
    r = a.run(b, [v, f])
    txt = out_text(r, f)
    if txt is None:
        rep.unk(rl, site, "the formatted text is not known: %s" % show(r.st.env.get(("H", f), f), 7))
    else:
        rep.check(txt == n, rl, site, "writes `%s` instead of `%s`" % (txt, n))


def out_text(r, f):
    """constant text appended to the formatter, or None"""
    x = r.st.env.get(("H", f), f)
    if x is f:
        return ""
    if x.op != "coll":
        return None
    s = ""
    for p in x.a[1]:
        if p.op == "piece" and p.a[0]:
            if p.a[2].op == "elem" and p.a[2].a[0] is f:
                continue
            return None
        if p.a[1] != 1:
            return None
        v = p.a[2]
        if v.op == "call" or v.op == "fmt":
            if v.op == "fmt" and len(v.a) == 1:
                v = v.a[0]
            else:
                return None
        if v.op != "c" or v.a[0] != "str":
            return None
        s += v.a[1]
    return s
