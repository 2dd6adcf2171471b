"""Parsing cargo metadata: C28 (keys fill their fields), C29 (required keys and defaults)"""
from ..ctx import rule
from ..lib import *

REQ, OPTK = "required", "optional"
DEFAULTED = {"edition": "edition", "kind": "kind"}

# type -> [(key cargo writes, field, what an absent key means)]
KEYS = {
    "Metadata": [("packages", "packages", REQ), ("workspace_members", "workspace_members", REQ),
                 ("workspace_default_members", "workspace_default_members", "members"), ("resolve", "resolve", OPTK),
                 ("workspace_root", "workspace_root", REQ), ("target_directory", "target_directory", REQ),
                 ("metadata", "workspace_metadata", "null"), ("version", "version", I(0))],
    "Resolve": [("nodes", "nodes", REQ), ("root", "root", REQ)],
    "Node": [("id", "id", REQ), ("deps", "deps", "vec"), ("dependencies", "dependencies", REQ), ("features", "features", "vec")],
    "NodeDep": [("name", "name", REQ), ("pkg", "pkg", REQ), ("dep_kinds", "dep_kinds", "vec")],
    "DepKindInfo": [("kind", "kind", "kind"), ("target", "target", OPTK)],
    "Dependency": [("name", "name", REQ), ("source", "source", OPTK), ("req", "req", REQ), ("kind", "kind", "kind"),
                   ("optional", "optional", REQ), ("uses_default_features", "uses_default_features", REQ),
                   ("features", "features", REQ), ("target", "target", OPTK), ("rename", "rename", OPTK),
                   ("registry", "registry", OPTK), ("path", "path", OPTK)],
    "Package": [("name", "name", REQ), ("version", "version", REQ), ("authors", "authors", "vec"), ("id", "id", REQ),
                ("source", "source", OPTK), ("description", "description", OPTK), ("dependencies", "dependencies", REQ),
                ("license", "license", OPTK), ("license_file", "license_file", OPTK), ("targets", "targets", REQ),
                ("features", "features", REQ), ("manifest_path", "manifest_path", REQ), ("categories", "categories", "vec"),
                ("keywords", "keywords", "vec"), ("readme", "readme", OPTK), ("repository", "repository", OPTK),
                ("homepage", "homepage", OPTK), ("documentation", "documentation", OPTK), ("edition", "edition", "edition"),
                ("metadata", "metadata", "null"), ("links", "links", OPTK), ("publish", "publish", OPTK),
                ("default_run", "default_run", OPTK), ("rust_version", "rust_version", "rust-version")],
    "Target": [("name", "name", REQ), ("kind", "kind", REQ), ("crate_types", "crate_types", "vec"),
               ("required-features", "required_features", "vec"), ("src_path", "src_path", REQ), ("edition", "edition", "edition"),
               ("doctest", "doctest", B(1)), ("test", "test", B(1)), ("doc", "doc", B(1))],
}

DEF = {
    OPTK: NONE,
    "vec": coll("vec", []),
    "rust-version": NONE,
    "kind": V("cm::DependencyKind", "Normal"),
    "edition": V("cm::Edition", "E2015"),
}


def visitor(a, ty):
    r = [b for b in a.p.bodies if b.get("name") == "visit_map" and (b.get("itrait") or "").endswith("Visitor")
         and "for cm::%s>" % ty in b["path"] and "{closure" not in b["path"]]
    if len(r) != 1:
        raise Undecided("Deserialize for " + ty, "no single map visitor found (%d)" % len(r))
    return r[0]


class Map:
    """the key loop of a map visitor as a transfer function on its local state"""

    def __init__(self, a, ty):
        self.ty = ty
        self.r = a.run(visitor(a, ty))
        recs = [x for x in self.r.en.loops.values() if any(v is sym(1) for v in x.init.values())]
        if len(recs) != 1:
            raise Undecided(ty, "no single loop over the map's keys")
        self.rec = rec = recs[0]
        self.acc = next(k for k, v in rec.init.items() if v is sym(1))
        self.map = rec.phi[self.acc]
        nk = [e for e in self.r.evs("call") if e.name == "next_key"]
        nv = [e for e in self.r.evs("call") if e.name == "next_value"]
        if not nk or not nv or any(e.res is not nk[0].res for e in nk) or any(e.res is not nv[0].res for e in nv):
            raise Undecided(ty, "keys and values are not read with one next_key and one next_value per iteration")
        self.nk, self.nv = nk[0].res, nv[0].res
        self.nks, self.nvs = nk, nv
        self.state = {k: p for k, p in rec.phi.items() if k != self.acc}

    def inp(self, key=None, val=None, err=None):
        """substitution describing what the accessor returns in this iteration"""
        if key is None and val is None and err is not None:
            return {self.nk: V(RES, "Err", ("0",), err)}
        if key is None:
            return {self.nk: V(RES, "Ok", ("0",), NONE)}
        m = {self.nk: V(RES, "Ok", ("0",), some(key))}
        m[self.nv] = V(RES, "Err", ("0",), err) if err is not None else V(RES, "Ok", ("0",), val)
        return m

    def step(self, m):
        """state after an iteration with that input, as terms over the state before it"""
        return {self.state[k]: subst(self.rec.next[k], m) for k in self.state}

    def out(self, m):
        """result of the visitor when the last iteration has that input"""
        return subst(self.r.v, m)


def phis(x):
    out = set()
    walk(x, lambda y: out.add(y) if y.op == "phi" else None)
    return out


def field_of(v, f, ty):
    return proj(proj(v, RES, "Ok", "0"), "cm::" + ty, ty, f)


def wrapped(ty, f, v):
    if (ty, f) == ("Metadata", "workspace_default_members"):
        return V("cm::WorkspaceDefaultMembers", "WorkspaceDefaultMembers", ("0",), v)
    return v


def rust_version(v):
    """(accepted, version) of a rust-version text: no pre-release or build part, missing components are 0"""
    e = elem(mk("call", "chars", v))
    return b_or(*[exists((e,), as_node(B(eq(e, C("char", c))))) for c in "-+"])


def chars_norm(n, v):
    """tests for a character of v, in one form: v.find('c'), v.contains('c'), a loop over v.chars()"""
    m = {}

    def f(x):
        if x.op == "is" and x.a[1] == OPT and x.a[2] == "Some" and x.a[0].op in ("call", "find") and "find" in x.a[0].a[:1] + (x.a[0].op,):
            ar = x.a[0].a[-2:]
            if ar[0] is v and ar[1].op == "c" and len(ar[1].a[1]) == 1:
                e = elem(mk("call", "chars", v))
                m[x] = B(exists((e,), as_node(B(eq(e, C("char", ar[1].a[1]))))))
        elif x.op == "exists" and len(x.a[0]) == 1 and x.a[0][0].a[0] is mk("call", "chars", v):
            e = x.a[0][0]
            cs = [at for at in atoms_in(x.a[1]) if at.op == "eq" and e in at.a]
            if len(cs) > 1 and n_eq(x.a[1], b_or(*[atom(at) for at in cs])):
                m[x] = B(b_or(*[exists((e,), atom(at)) for at in cs]))
    for at in atoms_in(n):
        walk(at, f)
    return subst_node(n, m) if m else n


def no_borrow(a, rep, site, e):
    t_ = a.p.ty(e.node["ty"]) if e.node and "ty" in e.node else ""
    ok_ = re.match(r"std::result::Result<(.*)$", t_)
    inner = ok_.group(1) if ok_ else t_
    if re.search(r"&('\w+ )?(str|\[u8\])", inner):
        rep.bad("owned-text", site, "%s reads borrowed text (%s), which fails for any text written with escapes" % (e.name, t_))


@rule("C28")
def keys(a, rep):
    for ty, table in KEYS.items():
        m = Map(a, ty)
        fields = list(a.fields("cm::" + ty))
        end = m.out(m.inp())
        known = {k for k, _, _ in table}
        base = {f: field_of(end, f, ty) for f in fields}
        want_next = mk("eff", "next_value", 0, mk("eff", "next_key", 0, m.map))
        if {f for _, f, _ in table} != set(fields):
            rep.unk("fields", ty, "the fields of %s changed: %s" % (ty, sorted(set(fields) ^ {f for _, f, _ in table})))
        ok0 = is_node(end, RES, "Ok")
        for k, f, kind in table + [(None, None, None)]:
            site = "%s.%s" % (ty, k or "<unknown key>")
            v = mk("sym", "value")
            key = S(k) if k else mk("sym", "key")
            inp = m.inp(key, v)
            st = m.step(inp)
            care = 1
            if k is None:
                for o in known:
                    care = b_and(care, b_not(eq(key, S(o))))
            if kind == "rust-version":
                care = is_node(v, OPT, "Some")
            got_care = b_and(care, subst_node(ok0, st))
            for g in fields:
                if g == f or (kind == "rust-version" and g == f):
                    continue
                # the other fields keep what they had
                expect(rep, "others-unchanged", site + "/" + g, subst(base[g], st), base[g], b_and(got_care, ok0))
            if k and kind == "rust-version":
                rv_rule(a, rep, m, base[f], st, v, site)
            elif k:
                own, now = phis(base[f]), subst(base[f], st)
                if now is base[f] and own and own <= set(m.state.values()):
                    rep.bad("value-stored", site, "the field is what it was before the key")
                    continue
                expect(rep, "value-stored", site, now, wrapped(ty, f, stored(ty, f, kind, v)), got_care,
                       allow=("phi",) if phis(now) - own and phis(now) - own <= set(m.state.values()) else ())
            # the value is consumed exactly once and the loop goes on
            expect(rep, "value-consumed-once", site, subst(m.rec.next[m.acc], {m.nk: inp[m.nk]}), want_next, care)
            if kind != "rust-version":
                expect_node(rep, "continues", site, subst_node(m.rec.back, inp), 1, care)
            # an error of the value is returned
            er = m.inp(key, err=mk("sym", "error"))
            expect(rep, "value-error", site, m.out(er), V(RES, "Err", ("0",), mk("sym", "error")), care)
            expect_node(rep, "value-error-stops", site, subst_node(m.rec.back, er), 0, care)
        er = m.inp(err=mk("sym", "error"))
        expect(rep, "key-error", ty, m.out(er), V(RES, "Err", ("0",), mk("sym", "error")))
        expect_node(rep, "key-error-stops", ty, subst_node(m.rec.back, er), 0)
        expect_node(rep, "end-stops", ty, subst_node(m.rec.back, m.inp()), 0)
        for e in m.nks + m.nvs:
            no_borrow(a, rep, ty, e)
        # unknown keys accept a value of any shape
        for e in m.nvs:
            g = subst_node(e.guard(), m.inp(mk("sym", "key"), mk("sym", "value")))
            none = 1
            for o in known:
                none = b_and(none, b_not(eq(mk("sym", "key"), S(o))))
            if b_and(g, none) != 0:
                t_ = a.p.ty(e.node["ty"])
                if re.match(r"std::result::Result<(cm::de::Ignore|serde::de::IgnoredAny|serde_json::Value),", t_):
                    rep.ok("unknown-any-shape", ty)
                else:
                    rep.bad("unknown-any-shape", ty, "the value of an unknown key is read as %s" % t_)
    ignore(a, rep)
    scalars(a, rep)


def stored(ty, f, kind, v):
    if kind == "members":
        return some(v)
    return v


def rv_rule(a, rep, m, base, st, v, site):
    """rust_version: null leaves it unset, a text of up to three components is completed and parsed"""
    got = subst(base, st)
    s = some_val(v)
    bad = rust_version(s)
    care = b_and(is_node(v, OPT, "Some"), b_not(bad))
    cont = chars_norm(subst_node(m.rec.back, m.inp(S("rust_version"), v)), s)
    x = [y for y in calls_of(got) if str(y.a[0]).startswith("semver_parse")]
    x = list({id(y): y for y in x}.values())
    own = phis(base)
    if not x and got is base and (got is NONE or own and own <= set(m.state.values())):
        rep.bad("value-stored", site, "the field is what it was before the key")
        return
    if len(x) != 1:
        rep.unk("value-stored", site, "no single version parse")
        return
    p = x[0]
    okp = is_node(p, RES, "Ok")
    expect(rep, "value-stored", site, got, some(proj(p, RES, "Ok", "0")), b_and(care, okp, cont), allow=("fold", "phi"))
    txt = p.a[1]
    okpad = False if txt is s else padded(txt, s)
    if okpad is None:
        rep.unk("rust-version-padding", site, "the completed text is %s" % show(txt, 8))
    else:
        rep.check(okpad, "rust-version-padding", site, "a missing component is not completed with `.0`: %s" % show(txt, 8))
    expect_node(rep, "rust-version-rejects", site, cont, b_and(b_not(bad), okp), is_node(v, OPT, "Some"), allow=("fold", "phi"))
    expect_node(rep, "rust-version-null", site, subst_node(cont, {v: NONE}), 1)


def padded(txt, s):
    """is txt = s followed by `.0` for each of the (2 - number of dots) missing components"""
    dots = length(mk("call", "matches", s, S(".")))
    if txt.op == "fold" and len(txt.a[0]) == 1:
        es, g, lid, phi, nxt, init = txt.a
        e = es[0]
        r = e.a[0] if e.op == "elem" else None
        if g != 1 or init is not s or r is None or r.op != "V" or r.a[1] != "Range":
            return None
        f = dict(zip(r.a[2], r.a[3:]))
        if nxt.op != "fmt" or nxt.a[0].op != "phi" or nxt.a[0].a[0] != lid:
            return None
        return nxt.a[1] is S(".0") and same(f["start"], dots) and same(f["end"], I(2))
    return None


def ignore(a, rep):
    """the value of an unknown key is skipped whatever it is"""
    for b in a.p.bodies:
        if norm_ty(b.get("self") or "") != "cm::de::Ignore" or "{closure" in b["path"]:
            continue
        n = b.get("name") or ""
        if not n.startswith("visit_"):
            continue
        r = a.run(b)
        site = "Ignore::" + n
        nx = [e for e in r.evs("call") if e.name in ("next_element", "next_entry", "next_key", "next_value")]
        if n in ("visit_seq", "visit_map"):
            # stops only at the end of the input or at an error
            if nx and not r.en.loops and not r.en.fors and not any("ignored_any" in str(e.name) for e in r.evs("call")):
                rep.bad("skips-everything", site, "only %d of the contents are skipped" % len(nx))
                continue
            if len(nx) != 1 or len(r.en.loops) != 1:
                rep.unk("skips-everything", site, "not a single loop over the contents")
                continue
            x = nx[0].res
            rec = list(r.en.loops.values())[0]
            expect_node(rep, "skips-everything", site + "/continues", rec.back, b_and(is_node(x, RES, "Ok"), some_node(proj(x, RES, "Ok", "0"))))
            expect_node(rep, "skips-everything", site + "/result", is_node(r.v, RES, "Ok"), is_node(x, RES, "Ok"), allow=("phi",))
        elif n in ("visit_some", "visit_newtype_struct"):
            c = r.v
            rep.check(c.op == "call" and c.a[0] in ("deserialize_ignored_any", "deserialize_any", "deserialize"), "skips-everything", site, show(c, 5))
        elif n == "visit_enum":
            rep.ok("skips-everything", site)
        else:
            expect_node(rep, "skips-everything", site, is_node(r.v, RES, "Ok"), 1)


def scalars(a, rep):
    for ty in ("PackageId", "Source"):
        r = a.run(a.method("cm::" + ty, "deserialize", trait="Deserialize"))
        x = [e for e in r.evs("call") if e.name == "deserialize"]
        if len(x) != 1:
            rep.unk("text-kept", ty, "no single inner deserialization")
            continue
        no_borrow(a, rep, ty, x[0])
        d = x[0].res
        expect(rep, "text-kept", ty, r.v, ite(is_node(d, RES, "Ok"), V(RES, "Ok", ("0",), V("cm::" + ty, ty, ("repr",), proj(d, RES, "Ok", "0"))),
                                              V(RES, "Err", ("0",), proj(d, RES, "Err", "0"))))


@rule("C29")
def absent(a, rep):
    for ty, table in KEYS.items():
        m = Map(a, ty)
        start = {m.state[k]: m.rec.init[k] for k in m.state}

        def after(keys_):
            st = dict(start)
            for k, f, kind in keys_:
                v = mk("sym", "v_" + k)
                val = NONE if kind == "rust-version" else v
                nx = m.step(m.inp(S(k), val))
                st = {p: subst(nx[p], st) for p in st}
            return subst(m.out(m.inp()), st)
        full = after(table)
        expect_node(rep, "complete-accepted", ty, is_node(full, RES, "Ok"), 1)
        for k, f, kind in table:
            if kind is REQ:
                r = after([x for x in table if x[0] != k])
                expect(rep, "required", "%s.%s" % (ty, k), r, V(RES, "Err", ("0",), mk("call", "missing_field", S(k))))
        r = after([x for x in table if x[2] is REQ])
        expect_node(rep, "optional-may-be-absent", ty, is_node(r, RES, "Ok"), 1)
        for k, f, kind in table:
            if kind is REQ:
                continue
            got = field_of(r, f, ty)
            if kind == "members":
                want = wrapped(ty, f, NONE)
            elif kind == "null":
                rep.check(is_json_null(got), "default", "%s.%s" % (ty, k), show(got, 5))
                continue
            elif isinstance(kind, T):
                want = kind
            else:
                want = DEF[kind]
            expect(rep, "default", "%s.%s" % (ty, k), got, want)
        # a null of an optional field is read as an absent value
        for k, f, kind in table:
            if kind is OPTK or (ty, f) == ("Resolve", "root") or kind == "rust-version":
                ev = [e for e in m.nvs if subst_node(e.guard(), m.inp(S(k), mk("sym", "value"))) != 0]
                for e in ev:
                    t_ = a.p.ty(e.node["ty"])
                    rep.check(re.match(r"std::result::Result<std::option::Option<", t_) is not None, "null-accepted", "%s.%s" % (ty, k),
                              "the value is read as %s, so null is an error" % t_)
    # the kind of a dependency may be null
    r = a.run(a.method("cm::DependencyKind", "deserialize", trait="Deserialize"))
    x = [e for e in r.evs("call") if e.name == "deserialize"]
    if len(x) != 1:
        rep.unk("null-kind", "DependencyKind", "no single inner deserialization")
        return
    d = x[0].res
    expect(rep, "null-kind", "DependencyKind", subst(r.v, {d: V(RES, "Ok", ("0",), NONE)}), V(RES, "Ok", ("0",), DEF["kind"]))
    no_borrow(a, rep, "DependencyKind", x[0])
    r = a.methods("cm::Edition", "default", trait="Default")
    if r:
        expect(rep, "default", "Edition", a.run(r[0]).v, DEF["edition"])


def is_json_null(x):
    return x.op == "V" and x.a[1] == "Null" or (x.op in ("const", "call", "zst") and "Null" in str(x.a))
