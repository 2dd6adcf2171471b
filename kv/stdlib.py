"""Semantics of the standard-library (and a few third-party) functions used by the analysed crate."""
import re
from . import terms as t
from .terms import *
from .engine import CF, ORD, norm_ty, choice_care_ord, isbool

EMPTY = {"Vec": "vec", "VecDeque": "vec", "String": "string", "BTreeSet": "set", "BTreeMap": "map",
         "HashMap": "map", "HashSet": "set", "BinaryHeap": "vec", "PathBuf": "string", "OsString": "string",
         "Utf8PathBuf": "string"}

IDENT = set("""clone to_owned as_ref as_str as_deref borrow deref iter into_iter copied cloned as_os_str as_std_path
as_path by_ref into_owned must_use as_slice as_bytes into_bytes into_string into_boxed_str into_boxed_slice to_vec as_os_string
into_iter_sorted fuse as_inner into_os_string to_path_buf into_std_path_buf as_encoded_bytes black_box identity
borrow_mut iter_mut as_mut_slice as_mut_str deref_mut as_mut as_deref_mut new_unchecked get_ref leak write
to_vec_in into_vec inspect_err as_utf8_path assume_init as_boxed_slice shrink_to_fit into_boxed_path into_path_buf
from_utf8_unchecked into_inner drain_all""".split())

MUTREF = set("deref_mut iter_mut as_mut_slice borrow_mut as_mut by_ref as_deref_mut as_mut_str".split())


class Ctx:
    __slots__ = ("en", "e", "args", "st", "act", "name", "did", "fam")


# calls whose result is an uninterpreted but known function of its arguments
KNOWN = set("""find rfind contains starts_with ends_with parse matches eval predicates lines chars split splitn rsplit
trim trim_end trim_start to_lowercase to_uppercase to_ascii_lowercase char_indices bytes join parent file_name file_stem extension canonicalize
is_alphabetic is_ascii_alphanumeric is_alphanumeric is_ascii_digit is_numeric is_ascii is_absolute exists from_utf8 from_str from_reader var
success code is_empty components with_extension get_builtin_target_by_triple edges_directed node_count edge_count raw_nodes raw_edges
add_node add_edge weight source target id filtered name version features index index_krate_features
reserve_nodes reserve_edges reserve output status spawn deserialize custom missing_field unknown_variant
next_key next_value next_entry next_element variant newtype_variant serialize_entry serialize_str serialize_map end
deserialize_map deserialize_any deserialize_str deserialize_ignored_any write_str write_fmt fmt field finish debug_struct
serialize_key serialize_value is_object is_array is_string is_number is_boolean is_i64 is_u64 is_f64
truncate push_str is_null inherit hash write make_ascii_lowercase apply rsplitn split_terminator rmatches
skip take rev max min step_by skip_while take_while max_by_key min_by_key neighbors node_weight edge_weight edges
node_indices edge_indices find_edge node_references edge_references weak is_ascii_alphabetic is_char_boundary
retain with_capacity repeat nth replace replacen swap remove_node remove_edge retain_nodes retain_edges
neighbors_directed neighbors_undirected eq_ignore_ascii_case escape_debug to_string to_digit cmp_precedence
""".split())


def fam_of(did):
    p = did or ""
    if p.startswith("core::option"):
        return "option"
    if p.startswith("core::result"):
        return "result"
    if p.startswith("core::iter") or "::iter::" in p and not p.startswith("petgraph"):
        return "iter"
    if "btree::map::entry" in p or "hash::map" in p and "entry" in p:
        return "entry"
    if "btree::map" in p or "hash::map" in p or "hash_map" in p:
        return "map"
    if "btree::set" in p or "hash::set" in p or "hash_set" in p:
        return "set"
    if p.startswith("alloc::vec") or p.startswith("core::slice") or p.startswith("alloc::slice") or "vec_deque" in p or p.startswith("core::array"):
        return "vec"
    if p.startswith("core::str") or p.startswith("alloc::str") or p.startswith("alloc::string"):
        return "str"
    if p.startswith("core::bool"):
        return "bool"
    if p.startswith("core::cmp"):
        return "cmp"
    if p.startswith("petgraph"):
        return "petgraph"
    if p.startswith("std::process"):
        return "process"
    if p.startswith("core::fmt") or p.startswith("alloc::fmt"):
        return "fmt"
    if p.startswith("core::num"):
        return "num"
    return ""


def tyof(en, e, i):
    a = e.get("a")
    if a and i < len(a):
        return en.p.types[a[i]["ty"]]
    return {}


def tys(en, i):
    return en.p.types[i]["s"] if i is not None else ""


def is_optty(s):
    return s.startswith("std::option::Option<") or s.startswith("core::option::Option<") or s.startswith("Option<")


def is_resty(s):
    return "Result<" in s.split("<")[0] + "<"


def branch(en, st, n, f1, f2):
    """evaluate f1 under n and f2 otherwise; merged value"""
    pg0 = st.pg
    s1 = st.copy(b_and(st.g, n))
    s2 = st.copy(b_and(st.g, b_not(n)))
    v1 = f1(s1) if s1.g else mk("undef")
    v2 = f2(s2) if s2.g else mk("undef")
    r = en.merge_vals([(v1, s1.g), (v2, s2.g)])
    if s1.g and not s2.g and not s2.pg and s2.env is not s1.env or True:
        en.merge(st, [s1, s2])
    st.pg = b_or(st.pg, pg0)
    return r


def ap(c, f, args, st):
    return c.en.call_fn_value(f, args, st, c.e.get("sp"), None)


def mkcoll(kind, pieces):
    ps = [p for p in pieces if p.a[1] != 0]
    if kind == "vec" and len(ps) == 1 and is_ident_piece(ps[0]):
        return ps[0].a[0][0].a[0]
    return coll(kind, ps)


def coll_of(en, v, kind="vec"):
    """turn an iterable value into explicit pieces"""
    return mkcoll(kind, [piece(es, n, w) for es, n, w in en.pieces(v)])


def kind_of(ty):
    s = norm_ty(ty)
    head = s.split("<")[0].split("::")[-1]
    if s.startswith("["):
        return "vec"
    return EMPTY.get(head)


def default_of(en, ty):
    s = norm_ty(ty)
    k = kind_of(s)
    if k:
        return S("") if k == "string" else coll(k, [])
    if is_optty(s):
        return NONE
    if s == "bool":
        return FALSE
    if s in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        return I(0)
    return None


# ------------------------------------------------------------------ closures over pieces
def over(c, v, f, after):
    """evaluate closure f on every piece of v.

    after(es, n, w, r, s) is called with the closure result; returns nothing.  When the closure has side
    effects on the environment the loop machinery is used and `after` runs inside the loop body."""
    en, st = c.en, c.st
    ps = en.pieces(v)
    for es, n, w in ps:
        if st.g == 0:
            return
        es, n, w = en.fresh_gens(es, n, w)
        mark = len(en.events)
        s = st.copy(n)
        lid = en.new_lid()
        from .engine import Frame
        fr = Frame("for", es, n, st.g, lid)
        en.frames.append(fr)
        en.open_elems.extend(es)
        before = dict(s.env)
        marks = [(cc, len(cc.breaks), len(cc.conts)) for cc in en.ctl]
        try:
            r = ap(c, f, [w], s)
        finally:
            en.frames.pop()
            if es:
                del en.open_elems[-len(es):]
        ch = [k for k in en.changed(before, s.env) if k in st.env or k[0] == "H"]
        if not ch:
            if r.op == "mref" or r.op == "choice" and any(x.op == "mref" for x in r.a[1:]):
                r = en.deref(s, r)
            after(es, n, w, r, None)
            continue
        # side effects: redo it as a loop
        del en.events[mark:]
        done = []

        def run_item(w2, place, s2):
            r2 = ap(c, f, [w2], s2)
            after((), s2.g, w2, en.deref(s2, r2), s2)
            done.append(1)
        en.one_for(es, n, w, None, st, c.act, run_item, ("it", lid), c.e.get("sp"))


def acc_root(en, c):
    en.ntmp += 1
    return ("L", c.act or 0, "acc%d" % en.ntmp)


def collect_over(c, v, f, emit, kind="vec"):
    """collection built by emit(w, r) -> [(es, guard, value)] for every piece"""
    en, st = c.en, c.st
    root = acc_root(en, c)
    st.env[root] = coll(kind, [])
    out = []

    def after(es, n, w, r, s):
        if s is None:
            for es2, g, val in emit(w, r):
                out.append(piece(tuple(es) + tuple(es2), b_and(n, g), val))
            flush(st)
        else:
            cur = s.env[root]
            new = list(cur.a[1]) if cur.op == "coll" else [ident_piece(cur)]
            for es2, g, val in emit(w, r):
                new.append(piece(tuple(es2), b_and(s.g, g) if s.g != n else g, val))
            s.env[root] = coll(kind, new)

    def flush(s):
        if out:
            cur = s.env[root]
            base = list(cur.a[1]) if cur.op == "coll" else [ident_piece(cur)]
            s.env[root] = coll(kind, base + out)
            del out[:]
    over(c, v, f, after)
    flush(st)
    r = st.env.pop(root)
    if r.op == "coll":
        return mkcoll(r.a[0], r.a[1])
    return r


def it_map(c, v, f):
    return collect_over(c, v, f, lambda w, r: [((), 1, r)])


def it_filter(c, v, f):
    return collect_over(c, v, f, lambda w, r: [((), as_node(r), w)])


def it_filter_map(c, v, f):
    def emit(w, r):
        return [((), is_node(r, OPT, "Some"), proj(r, OPT, "Some", "0"))]
    return collect_over(c, v, f, emit)


def it_flat_map(c, v, f):
    en = c.en

    def emit(w, r):
        out = []
        for es, n, x in en.pieces(r):
            es, n, x = en.fresh_gens(es, n, x)
            out.append((es, n, x))
        return out
    return collect_over(c, v, f, emit)


def first_of(en, ps):
    """optional first element of a piece list"""
    r = NONE
    for es, n, w in reversed(ps):
        ex = exists(es, n)
        if es:
            m = {e: pick("fst", tuple(es), n, e) for e in es}
            w2 = subst(w, m)
        else:
            w2 = w
        r = ite(ex, some(w2), r)
    return r


def as_iter(c, i=0):
    return c.en.deref(c.st, c.args[i])


# ------------------------------------------------------------------ dispatch
def call(en, e, args, st, act):
    c = Ctx()
    c.en, c.e, c.args, c.st, c.act = en, e, list(args), st, act
    c.name = e.get("name") or (e.get("did") or "").split("::")[-1]
    c.did = e.get("rdid") or e.get("did")
    c.fam = fam_of(e.get("did") or "")
    ty = tys(en, e.get("ty")) if e.get("ty") is not None else ""
    if ty == "!" and not (e.get("rdid") in en.p.by_did or e.get("did") in en.p.by_did):
        en.panic(st, c.name, e.get("sp"))
        return mk("undef")

    # local functions
    did = e.get("rdid") or e.get("did")
    b = en.p.by_did.get(did)
    if b is None and e.get("rdid"):
        b = None
    tr = e.get("trait") or ""
    if tr.startswith("std::ops::Fn"):
        return TABLE[("*", "call")](c)
    if b is None and tr.endswith("Display") and c.name == "fmt" and args[1].op == "mref":
        return write_out(c, args[1], mk("fmt", en.deref(st, args[0])))
    if b is None and tr.endswith(("Display", "Debug")) and c.name == "fmt":
        return en.opaque_call("fmt", did, args, st, e.get("sp"), e)
    if b is not None:
        derived = e.get("derived") or b.get("derived")
        opq = en.is_opaque(b)
        if derived or opq:
            if c.name in ("eq", "ne"):
                a, d = (en.deref(st, x) for x in args)
                n = eq(a, d)
                return B(n if c.name == "eq" else b_not(n))
            if c.name == "cmp":
                return do_cmp(en, st, args)
            if c.name == "partial_cmp":
                return some(do_cmp(en, st, args))
            if c.name in ("clone",):
                return en.deref(st, args[0])
            if c.name in ("lt", "le", "gt", "ge"):
                return rel(c.name, *[en.deref(st, x) for x in args])
        if opq:
            if c.name == "from" and b.get("itrait") == "std::convert::From":
                return conv(en, b, args[0], st, e)
            return en.opaque_call(b["path"] if b.get("itrait") else (b.get("path")), did, args, st, e.get("sp"), e)
        if b["body"] is not None and en.stack.count(b["did"]) < 1 and len(en.stack) < en.max_depth:
            return en.call_body(b, en.new_act(), list(args), st)
        return en.opaque_call(b["path"], did, args, st, e.get("sp"), e)

    # feeding a hasher
    if tr.endswith("::Hasher") and c.name.startswith("write") or tr.endswith("::Hash") and c.name == "hash":
        v = en.deref(st, args[1] if tr.endswith("::Hasher") else args[0])
        en.log("hash", did, [v], st, [None], e.get("sp"), None, e, kind="hash")
        return UNIT

    # dispatch to a foreign trait implemented locally through Into / Deref / ToString
    if c.name == "into" and tr.endswith("Into"):
        return do_into(c)
    if c.name == "from" and tr.endswith("From"):
        return do_into(c)
    if c.name in ("try_into",):
        return opaque(c)

    h = None
    if c.name in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min") and (c.fam == "cmp" or tr.startswith("std::cmp") or tr.startswith("std::iter")):
        return do_cmpish(c)
    h = TABLE.get((c.fam, c.name)) or TABLE.get(("*", c.name))
    if h is not None:
        r = h(c)
        if r is not NotImplemented:
            return r
    if c.name in IDENT:
        v = c.args[0]
        if c.name in MUTREF and v.op == "mref":
            return v
        if c.name in ("clone", "to_owned", "cloned", "copied", "into_owned", "to_vec", "as_ref", "as_str", "as_deref", "borrow", "deref", "iter", "as_slice", "into_iter"):
            return en.deref(st, v)
        return v
    return opaque(c)


def opaque(c, name=None):
    n = name or c.name
    if n not in KNOWN:
        c.en.unknown.append((c.e.get("sp"), c.did))
        n = "?" + n
    return c.en.opaque_call(n, c.did, c.args, c.st, c.e.get("sp"), c.e)


def pure(c, name=None, args=None):
    """uninterpreted pure function of its (dereferenced) arguments; still logged"""
    n = name or c.name
    vals = [c.en.deref(c.st, a) for a in (args if args is not None else c.args)]
    return lifted_call(n, vals)


def lifted_call(n, vals):
    # distribute over a choice in the receiver
    if vals and vals[0].op == "choice":
        return lift(lambda x: lifted_call(n, [x] + vals[1:]), vals[0])
    return mk("call", n, *vals)


def conv(en, b, a, st, e):
    v = en.deref(st, a)
    dst = norm_ty(b.get("self"))
    en.log("conv", b["did"], [v], st, [None], e.get("sp"), None, e)
    return mk("conv", dst, v)


def do_into(c):
    en, st, e = c.en, c.st, c.e
    v = c.args[0]
    dst = norm_ty(tys(en, e.get("ty")))
    src = norm_ty(tyof(en, e, 0).get("s", "")) if e.get("a") else ""
    b = find_from(en, src, dst)
    if b is not None:
        if en.is_opaque(b):
            return conv(en, b, v, st, e)
        if en.stack.count(b["did"]) < 1:
            return en.call_body(b, en.new_act(), [v], st)
    if is_optty(dst) and not is_optty(src) and src:
        return some(v)
    return v


def find_from(en, src, dst):
    b = en.p.from_impls.get((src, dst))
    if b is not None:
        return b
    # generic parameters in the destination
    hd = dst.split("<")[0]
    for (s_, d_), b in en.p.from_impls.items():
        if s_ == src and d_.split("<")[0] == hd:
            return b
    return None


def do_cmp(en, st, args):
    a, b = (en.deref(st, x) for x in args)
    return cmp_(a, b)


def cmp_(a, b):
    if a.op == "b" and b.op == "b":
        pass
    if a.op == "choice" or b.op == "choice":
        return mk("cmp", a, b)
    if a is b:
        return V(ORD, "Equal")
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):       # component by component
        r = V(ORD, "Equal")
        for x, y in reversed(list(zip(a.a, b.a))):
            o = cmp_(x, y)
            r = ite(is_node(o, ORD, "Equal"), r, o)
        return r
    return mk("cmp", a, b)


def rel(name, a, b):
    if name == "lt":
        return B(lt(a, b))
    if name == "gt":
        return B(lt(b, a))
    if name == "le":
        return B(b_not(lt(b, a)))
    return B(b_not(lt(a, b)))


def user_eq(c):
    """the hand-written `eq` behind a comparison of two types of the crate (`!=` and references go through std)"""
    en = c.en
    x, y = (re.sub(r"^(&(mut )?)+", "", norm_ty(tyof(en, c.e, i).get("s", ""))).strip() for i in (0, 1))
    if not x or x == "bool" or "user_eqs" not in en.p.__dict__:
        if "user_eqs" not in en.p.__dict__:
            en.p.user_eqs = {}
            for b in en.p.bodies:
                if b.get("itrait") == "std::cmp::PartialEq" and b.get("name") == "eq" and not b.get("derived"):
                    m = re.search(r"PartialEq<(.*)>$", b.get("itraitfull") or "")
                    t1 = norm_ty(b.get("self"))
                    en.p.user_eqs[(t1, norm_ty(m.group(1)) if m else t1)] = b
    u = en.p.user_eqs.get((x, y))
    if u is None or en.is_opaque(u) or u["body"] is None or en.stack.count(u["did"]) >= 1 or len(en.stack) >= en.max_depth:
        return None
    return u


def do_cmpish(c):
    en, st = c.en, c.st
    if len(c.args) < 2:
        return opaque(c)
    a, b = (en.deref(st, x) for x in c.args[:2])
    n = c.name
    if n in ("eq", "ne"):
        u = user_eq(c)
        if u is not None:
            r = as_node(en.call_body(u, en.new_act(), [a, b], st))
        else:
            r = eq(a, b)
        return B(r if n == "eq" else b_not(r))
    if n in ("lt", "le", "gt", "ge"):
        return rel(n, a, b)
    if n == "cmp":
        return cmp_(a, b)
    if n == "partial_cmp":
        return some(cmp_(a, b))
    if n in ("max", "min"):
        l = lt(a, b)
        return ite(l, b, a) if n == "max" else ite(l, a, b)
    return opaque(c)


TABLE = {}


def reg(fam, *names):
    def d(f):
        for n in names:
            TABLE[(fam, n)] = f
        return f
    return d


def v0(c):
    return c.en.deref(c.st, c.args[0])


def isopt_recv(c):
    """True when the receiver is an Option, False for Result"""
    return c.fam == "option"


def good(c, v):
    return is_node(v, OPT, "Some") if c.fam == "option" else is_node(v, RES, "Ok")


def payload(c, v):
    return proj(v, OPT, "Some", "0") if c.fam == "option" else proj(v, RES, "Ok", "0")


def errp(v):
    return proj(v, RES, "Err", "0")


def wrap(c, x):
    return some(x) if c.fam == "option" else ok(x)


def bad(c, v):
    return NONE if c.fam == "option" else err(errp(v))


def both(*names):
    def d(f):
        for n in names:
            TABLE[("option", n)] = f
            TABLE[("result", n)] = f
        return f
    return d


@both("map")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: wrap(c, ap(c, c.args[1], [payload(c, v)], s)), lambda s: bad(c, v))


@both("and_then")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[1], [payload(c, v)], s), lambda s: bad(c, v))


@both("map_or")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[2], [payload(c, v)], s), lambda s: c.args[1])


@both("map_or_else")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[2], [payload(c, v)], s),
                  lambda s: ap(c, c.args[1], [] if c.fam == "option" else [errp(v)], s))


@both("is_some_and", "is_ok_and")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[1], [payload(c, v)], s), lambda s: FALSE)


@both("is_none_or")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[1], [payload(c, v)], s), lambda s: TRUE)


@both("is_some", "is_ok")
def _(c):
    return B(good(c, v0(c)))


@both("is_none", "is_err")
def _(c):
    return B(b_not(good(c, v0(c))))


@both("unwrap", "expect", "unwrap_unchecked")
def _(c):
    v = v0(c)
    n = good(c, v)
    if n != 1:
        c.en.log("unwrap", c.did, [v], c.st, [None], c.e.get("sp"), None, c.e, kind="unwrap")
    return payload(c, v)


@reg("result", "unwrap_err", "expect_err")
def _(c):
    return errp(v0(c))


@both("unwrap_or")
def _(c):
    v = v0(c)
    return ite(good(c, v), payload(c, v), c.args[1])


@both("unwrap_or_default")
def _(c):
    v = v0(c)
    d = default_of(c.en, tys(c.en, c.e.get("ty")))
    return ite(good(c, v), payload(c, v), d if d is not None else mk("default"))


@both("unwrap_or_else")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: payload(c, v),
                  lambda s: ap(c, c.args[1], [] if c.fam == "option" else [errp(v)], s))


@both("or_else")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: v,
                  lambda s: ap(c, c.args[1], [] if c.fam == "option" else [errp(v)], s))


@both("or")
def _(c):
    v = v0(c)
    return ite(good(c, v), v, c.args[1])


@both("and")
def _(c):
    v = v0(c)
    return ite(good(c, v), c.en.deref(c.st, c.args[1]), bad(c, v))


@reg("option", "xor")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    x, y = is_node(a, OPT, "Some"), is_node(b, OPT, "Some")
    return ite(b_and(x, b_not(y)), a, ite(b_and(y, b_not(x)), b, NONE))


@reg("result", "map_err")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ok(payload(c, v)), lambda s: err(ap(c, c.args[1], [errp(v)], s)))


@reg("result", "ok")
def _(c):
    v = v0(c)
    c.en.log("discard_err", c.did, [v], c.st, [None], c.e.get("sp"), None, c.e, kind="discard")
    return ite(good(c, v), some(payload(c, v)), NONE)


@reg("result", "err")
def _(c):
    v = v0(c)
    return ite(good(c, v), NONE, some(errp(v)))


@reg("option", "ok_or")
def _(c):
    v = v0(c)
    return ite(good(c, v), ok(payload(c, v)), err(c.args[1]))


@reg("option", "ok_or_else")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, good(c, v), lambda s: ok(payload(c, v)), lambda s: err(ap(c, c.args[1], [], s)))


@reg("option", "zip")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    n = b_and(is_node(a, OPT, "Some"), is_node(b, OPT, "Some"))
    return ite(n, some(mk("tup", proj(a, OPT, "Some", "0"), proj(b, OPT, "Some", "0"))), NONE)


@reg("option", "filter")
def _(c):
    v = v0(c)

    def f(s):
        r = ap(c, c.args[1], [payload(c, v)], s)
        return ite(as_node(r), v, NONE)
    return branch(c.en, c.st, good(c, v), f, lambda s: NONE)


@reg("option", "flatten")
def _(c):
    v = v0(c)
    return ite(good(c, v), payload(c, v), NONE)


@both("transpose")
def _(c):
    v = v0(c)
    if c.fam == "option":
        p = payload(c, v)
        return ite(good(c, v), ite(is_node(p, RES, "Ok"), ok(some(proj(p, RES, "Ok", "0"))), err(errp(p))), ok(NONE))
    p = payload(c, v)
    return ite(good(c, v), ite(is_node(p, OPT, "Some"), some(ok(proj(p, OPT, "Some", "0"))), NONE), some(err(errp(v))))


@both("iter", "into_iter", "as_ref", "as_deref", "copied", "cloned")
def _(c):
    return v0(c)


@reg("option", "as_mut", "as_deref_mut", "iter_mut")
def _(c):
    r = c.args[0]
    if r.op == "mref":
        v = v0(c)
        n = is_node(v, OPT, "Some")
        return ite(n, some(mk("mref", r.a[0], r.a[1] + (("p", OPT, "Some", "0"),))), NONE)
    return r


@reg("option", "take")
def _(c):
    v = v0(c)
    if c.args[0].op == "mref":
        set_to(c, 0, NONE)
    return v


@reg("option", "replace")
def _(c):
    v = v0(c)
    set_to(c, 0, some(c.args[1]))
    return v


@reg("option", "insert")
def _(c):
    set_to(c, 0, some(c.args[1]))
    r = c.args[0]
    if r.op == "mref":
        return mk("mref", r.a[0], r.a[1] + (("p", OPT, "Some", "0"),))
    return c.args[1]


@reg("option", "get_or_insert_with", "get_or_insert")
def _(c):
    v = v0(c)
    n = good(c, v)
    x = branch(c.en, c.st, n, lambda s: payload(c, v), lambda s: ap(c, c.args[1], [], s) if c.name.endswith("with") else c.args[1])
    c.en.write_ref(c.st, c.args[0], some(x))
    r = c.args[0]
    if r.op == "mref":
        return mk("mref", r.a[0], r.a[1] + (("p", OPT, "Some", "0"),))
    return x


@both("inspect")
def _(c):
    v = v0(c)
    branch(c.en, c.st, good(c, v), lambda s: ap(c, c.args[1], [payload(c, v)], s), lambda s: UNIT)
    return v


@reg("bool", "then")
def _(c):
    n = as_node(v0(c))
    return branch(c.en, c.st, n, lambda s: some(ap(c, c.args[1], [], s)), lambda s: NONE)


@reg("bool", "then_some")
def _(c):
    return ite(as_node(v0(c)), some(c.args[1]), NONE)


@reg("*", "not")
def _(c):
    return B(b_not(as_node(v0(c))))


@reg("*", "bitor")
def _(c):
    return c.en.bin("BitOr", v0(c), c.en.deref(c.st, c.args[1]))


@reg("*", "bitand")
def _(c):
    return c.en.bin("BitAnd", v0(c), c.en.deref(c.st, c.args[1]))


@reg("*", "add")
def _(c):
    v = v0(c)
    if c.fam == "str":
        return str_push(v, c.en.deref(c.st, c.args[1]))
    return c.en.bin("Add", v, c.en.deref(c.st, c.args[1]))


# ---- ? operator
@reg("*", "branch")
def _(c):
    v = v0(c)
    s = norm_ty(tyof(c.en, c.e, 0).get("s", ""))
    if is_optty(s):
        n = is_node(v, OPT, "Some")
        return ite(n, V(CF, "Continue", ("0",), proj(v, OPT, "Some", "0")), V(CF, "Break", ("0",), NONE))
    n = is_node(v, RES, "Ok")
    return ite(n, V(CF, "Continue", ("0",), proj(v, RES, "Ok", "0")), V(CF, "Break", ("0",), err(errp(v))))


@reg("*", "from_residual")
def _(c):
    en = c.en
    v = v0(c)
    ty = norm_ty(tys(en, c.e.get("ty")))
    if is_optty(ty):
        return NONE
    ta = en.p.types[c.e["ty"]].get("args") or []
    sa = tyof(en, c.e, 0).get("args") or []
    x = errp(v)
    if len(ta) > 1 and len(sa) > 1:
        F, E = norm_ty(argty(en, ta[1])), norm_ty(argty(en, sa[1]))
        b = find_from(en, E, F) if E != F else None
        if b is not None:
            if en.is_opaque(b):
                return err(conv(en, b, x, c.st, c.e))
            return err(en.call_body(b, en.new_act(), [x], c.st))
    return err(x)


def argty(en, a):
    return en.p.types[a]["s"] if isinstance(a, int) else str(a)


# ---- conversions and identities that need care
@reg("*", "to_string")
def _(c):
    v = v0(c)
    s = norm_ty(tyof(c.en, c.e, 0).get("s", ""))
    if s in ("str", "std::string::String", "String", "alloc::string::String", "") or "Cow<" in s:
        return v
    return pure(c)


@reg("*", "new")
def _(c):
    d = c.e.get("did") or ""
    ty = norm_ty(tys(c.en, c.e.get("ty")))
    k = kind_of(ty)
    if not c.args and k:
        return S("") if k == "string" else coll(k, [])
    if ty.startswith("std::boxed::Box") or ty.startswith("std::sync::Arc") or ty.startswith("std::rc::Rc"):
        return c.args[0]
    if c.fam == "fmt":
        return fmt_new(c)
    if c.fam == "process":
        return coll("cmd", [piece((), 1, mk("tup", S("new"), c.en.deref(c.st, c.args[0])))])
    if c.fam == "petgraph":
        if not c.args:
            return coll("graph", [])
        return v0(c)        # NodeIndex::new / EdgeIndex::new
    if len(c.args) == 1 and ("Path" in ty or "OsStr" in ty):
        return v0(c)
    return NotImplemented


@reg("*", "with_capacity", "with_capacity_in")
def _(c):
    k = kind_of(tys(c.en, c.e.get("ty")))
    if k:
        return S("") if k == "string" else coll(k, [])
    if c.fam == "petgraph":
        return coll("graph", [])
    return NotImplemented


@reg("*", "default")
def _(c):
    d = default_of(c.en, tys(c.en, c.e.get("ty")))
    if d is not None:
        return d
    return mk("default", C("ty", norm_ty(tys(c.en, c.e.get("ty")))))


@reg("*", "write_box_via_move")
def _(c):
    return c.args[1]


@reg("*", "box_assume_init_into_vec_unsafe", "box_new", "into_vec")
def _(c):
    return c.args[0]


@reg("*", "new_uninit")
def _(c):
    return mk("uninit")


@reg("*", "from_elem")
def _(c):
    n = c.en.deref(c.st, c.args[1])
    r = mk("range", I(0), n)
    if isint(n):
        return coll("vec", [piece((), 1, v0(c)) for _ in range(min(n.a[1], 16))])
    return coll("vec", [piece((elem(r),), 1, v0(c))])


@reg("*", "take")
def _(c):
    if c.fam == "iter":
        v = v0(c)
        return mk("take", v, c.en.deref(c.st, c.args[1]))
    if (c.e.get("did") or "").startswith("core::mem") or (c.e.get("did") or "").startswith("std::mem"):
        v = v0(c)
        d = default_of(c.en, tys(c.en, c.e.get("ty")))
        set_to(c, 0, d if d is not None else mk("default"))
        return v
    return NotImplemented


@reg("*", "replace")
def _(c):
    if (c.e.get("did") or "").startswith(("core::mem", "std::mem")):
        v = v0(c)
        set_to(c, 0, c.args[1])
        return v
    return NotImplemented


@reg("*", "swap")
def _(c):
    if (c.e.get("did") or "").startswith(("core::mem", "std::mem")):
        a, b = v0(c), c.en.deref(c.st, c.args[1])
        set_to(c, 0, b)
        set_to(c, 1, a)
        return UNIT
    return NotImplemented


@reg("*", "drop")
def _(c):
    return UNIT


# ---- ordering
@reg("cmp", "reverse")
def _(c):
    v = v0(c)

    def f(x):
        if x.op == "V":
            return V(ORD, {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[x.a[1]])
        if x.op == "cmp":
            return cmp_(x.a[1], x.a[0])
        return mk("rev_cmp", x)
    return lift(f, v)


@reg("cmp", "then_with")
def _(c):
    v = v0(c)
    return branch(c.en, c.st, is_node(v, ORD, "Equal"), lambda s: ap(c, c.args[1], [], s), lambda s: v)


@reg("cmp", "then")
def _(c):
    v = v0(c)
    return ite(is_node(v, ORD, "Equal"), c.en.deref(c.st, c.args[1]), v)


for _n, _f in (("is_eq", lambda v: is_node(v, ORD, "Equal")), ("is_ne", lambda v: b_not(is_node(v, ORD, "Equal"))),
               ("is_lt", lambda v: is_node(v, ORD, "Less")), ("is_gt", lambda v: is_node(v, ORD, "Greater")),
               ("is_le", lambda v: b_not(is_node(v, ORD, "Greater"))), ("is_ge", lambda v: b_not(is_node(v, ORD, "Less")))):
    TABLE[("cmp", _n)] = (lambda f: lambda c: B(f(v0(c))))(_f)


# ---- indexing
@reg("*", "index")
def _(c):
    if c.fam == "petgraph" and len(c.args) == 1:
        return v0(c)                      # NodeIndex::index
    if len(c.args) < 2:
        return NotImplemented
    base, i = v0(c), c.en.deref(c.st, c.args[1])
    return do_index(c, base, i)


def do_index(c, base, i):
    en = c.en
    ity = norm_ty(tyof(en, c.e, 1).get("s", ""))
    bty = norm_ty(tyof(en, c.e, 0).get("s", ""))
    r = range_parts(i, base)
    if r is not None:
        en.log("slice", c.did, [base, r[0], r[1]], c.st, [None] * 3, c.e.get("sp"), None, c.e, kind="index")
        return slice_(base, r[0], r[1])
    if "Map<" in bty:
        m = map_get(base, i)
        en.log("unwrap", c.did, [m], c.st, [None], c.e.get("sp"), None, c.e, kind="unwrap")
        return proj(m, OPT, "Some", "0")
    if "Graph<" in bty or "graph_impl" in bty:
        return graph_at(base, i)
    en.log("index", c.did, [base, i], c.st, [None] * 2, c.e.get("sp"), None, c.e, kind="index")
    return index_at(base, i)


def graph_at(base, i):
    return index_at(base, i)


def range_parts(i, base):
    """(lo, hi) of a range value used as an index"""
    if i.op == "range":
        return i.a
    if i.op == "choice":
        return None
    if i.op == "V":
        k = i.a[0].split("::")[-1]
        ln = length(base) if base is not None else None
        if k == "Range" or i.a[1] == "Range" and "start" in i.a[2] and "end" in i.a[2]:
            return field(i, "start"), field(i, "end")
        if k == "RangeFrom":
            return field(i, "start"), ln
        if k == "RangeTo":
            return I(0), field(i, "end")
        if k == "RangeFull":
            return I(0), ln
        if k == "RangeToInclusive":
            return I(0), add(field(i, "end"), I(1))
    if i.op == "rangeincl":
        return i.a[0], add(i.a[1], I(1))
    return None


@reg("*", "index_mut")
def _(c):
    i = c.en.deref(c.st, c.args[1])
    r = c.args[0]
    base = v0(c)
    if range_parts(i, base) is not None:
        return do_index(c, base, i)
    bty = norm_ty(tyof(c.en, c.e, 0).get("s", ""))
    c.en.log("index", c.did, [base, i], c.st, [None] * 2, c.e.get("sp"), None, c.e, kind="index")
    if r.op == "mref":
        return mk("mref", r.a[0], r.a[1] + ((("k", i) if "Map<" in bty else ("i", i)),))
    return index_at(base, i)


@reg("vec", "get")
def _(c):
    base, i = v0(c), c.en.deref(c.st, c.args[1])
    rp = range_parts(i, base)
    if rp is not None:
        okn = b_not(b_or(lt(rp[1], rp[0]), lt(length(base), rp[1])))
        return ite(okn, some(slice_(base, rp[0], rp[1])), NONE)
    return nth(base, i)


@reg("vec", "get_mut")
def _(c):
    base, i = v0(c), c.en.deref(c.st, c.args[1])
    r = c.args[0]
    if r.op == "mref":
        return ite(lt(i, length(base)), some(mk("mref", r.a[0], r.a[1] + (("i", i),))), NONE)
    return nth(base, i)


@reg("vec", "first")
def _(c):
    return do_first(v0(c))


def do_first(v):
    v = see_order(v)
    if v.op == "coll" and all(p.op == "piece" and not p.a[0] for p in v.a[1]):
        r = NONE
        for p in reversed(v.a[1]):
            r = ite(p.a[1], some(p.a[2]), r)
        return r
    return nth(v, I(0))


def see_order(v):
    return v


@reg("vec", "last")
def _(c):
    v = v0(c)
    return ite(nonempty(v), some(index_at(v, add(length(v), I(1), -1))), NONE)


@reg("vec", "split_first")
def _(c):
    v = v0(c)
    return ite(nonempty(v), some(mk("tup", index_at(v, I(0)), slice_(v, I(1), length(v)))), NONE)


# ---- collection size
@reg("*", "is_empty")
def _(c):
    v = v0(c)
    if c.fam == "str" or v.op == "c":
        if v.op == "c":
            return B(1 if v.a[1] == "" else 0)
        return B(lift_node(lambda x: eq(x, S("")), v))
    if c.fam in ("vec", "map", "set", "iter") or v.op == "coll":
        return B(b_not(nonempty(v)))
    return B(lift_node(lambda x: empty_str(x), v))


def empty_str(x):
    return int(x.a[1] == "") if x.op == "c" else atom(mk("call", "is_empty", x))


@reg("*", "len")
def _(c):
    return length(v0(c))


@reg("*", "count")
def _(c):
    if c.fam != "iter":
        return NotImplemented
    return count_of(c.en, v0(c))


def count_of(en, v):
    r = I(0)
    for es, n, w in en.pieces(v):
        if not es:
            r = add(r, I(1)) if n == 1 else add(r, ite(n, I(1), I(0)))
        elif len(es) == 1 and n == 1 and w is es[0]:
            r = add(r, length(es[0].a[0]))
        elif len(es) == 1 and n == 1:
            r = add(r, length(es[0].a[0]))
        else:
            r = add(r, mk("count", tuple(es), n))
    return r


# ---- Vec mutation
def push_to(cur, kind, p):
    if cur.op == "coll":
        return coll(cur.a[0], list(cur.a[1]) + [p])
    if cur.op == "choice":
        return choice([(push_to(x, kind, p), g) for x, g in alts(cur)])
    return coll(kind, [ident_piece(cur), p])


def mutate(c, new, ret=UNIT, ev=None, evargs=None):
    places = [c.en.norm_place(c.st, (c.args[0].a[0], c.args[0].a[1])) if c.args[0].op == "mref" else None]
    c.en.log(ev or c.name, c.did, evargs if evargs is not None else [c.en.deref(c.st, a) for a in c.args],
             c.st, places, c.e.get("sp"), ret, c.e, kind="mutate")
    c.en.write_ref(c.st, c.args[0], new)
    return ret


def set_to(c, i, new):
    """an assignment through a reference"""
    if c.args[i].op == "mref":
        c.en.log("assign", "assign", [new], c.st, [c.en.norm_place(c.st, (c.args[i].a[0], c.args[i].a[1]))], c.e.get("sp"), UNIT)
    c.en.write_ref(c.st, c.args[i], new)


def keep(c, x):
    """a value stored in a collection: references to locals stay references"""
    return c.en.deref(c.st, x) if x.op == "mref" else x


@reg("vec", "push", "push_back")
def _(c):
    v = v0(c)
    return mutate(c, push_to(v, "vec", piece((), 1, keep(c, c.args[1]))), ev="push")


@reg("vec", "pop", "pop_front", "pop_back")
def _(c):
    v = v0(c)
    if v.op == "coll" and v.a[1] and all(p.op == "piece" and not p.a[0] and p.a[1] == 1 for p in v.a[1]):
        ps = list(v.a[1])
        p = ps.pop(0) if c.name == "pop_front" else ps.pop()
        return mutate(c, coll(v.a[0], ps), some(p.a[2]))
    k = "pop" if c.name != "pop_front" else "popf"
    r = ite(nonempty(v), some(mk(k + "ped", v)), NONE)
    return mutate(c, mk(k + "rest", v), r)


@reg("vec", "append")
def _(c):
    v, w = v0(c), c.en.deref(c.st, c.args[1])
    new = extend_with(c, v, w)
    c.en.write_ref(c.st, c.args[1], coll("vec", []))
    return mutate(c, new, ev="extend", evargs=[v, w])


def extend_with(c, v, w, kind=None):
    kind = kind or (v.a[0] if v.op == "coll" else "vec")
    base = list(v.a[1]) if v.op == "coll" else [ident_piece(v)]
    for es, n, x in c.en.pieces(w):
        es, n, x = c.en.fresh_gens(es, n, x)
        base.append(piece(es, n, x))
    return coll(kind, base)


@reg("*", "extend", "extend_from_slice")
def _(c):
    if c.args[0].op != "mref":
        return NotImplemented
    v, w = v0(c), c.en.deref(c.st, c.args[1])
    ty = kind_of(tyof(c.en, c.e, 0).get("s", "")) or "vec"
    if ty == "map":
        new = map_grow("mapext", v, [piece(*c.en.fresh_gens(es, n, x)) for es, n, x in c.en.pieces(w)])
        return mutate(c, new, ev="extend", evargs=[v, w])
    if ty == "string":
        return mutate(c, str_push(v, w), ev="extend", evargs=[v, w])
    ws = pieces_opt(c, 1, w)
    if w.op == "V" and w.a[0] == OPT or w.op not in ("V", "choice", "coll") and not ws[0][0] and is_optty(norm_ty(tyof(c.en, c.e, 1).get("s", ""))) or \
            w.op == "choice" and all(x.op == "V" and x.a[0] == OPT for x, _ in alts(w)):
        # an element if there is one
        new = v
        for es, n, x in ws:
            s = c.st.copy(b_and(c.st.g, n))
            if s.g:
                c.en.log("set_insert" if ty == "set" else "push", c.did, [v, x], s, [c.en.norm_place(c.st, (c.args[0].a[0], c.args[0].a[1]))],
                         c.e.get("sp"), UNIT, c.e, kind="mutate")
            new = push_to(new, ty, piece((), n, x))
        c.en.write_ref(c.st, c.args[0], new)
        return UNIT
    return mutate(c, extend_with(c, v, w, ty), ev="extend", evargs=[v, w])


@reg("vec", "insert")
def _(c):
    v, i, x = (c.en.deref(c.st, a) for a in c.args)
    if i.op == "inspos":
        # insertion at the position found by binary search keeps the list sorted
        return mutate(c, push_to(v, "vec", piece((), 1, x)), ev="insert_sorted", evargs=[v, i, x])
    return mutate(c, mk("vinsert", v, i, x), evargs=[v, i, x])


@reg("vec", "swap_remove", "remove")
def _(c):
    v, i = v0(c), c.en.deref(c.st, c.args[1])
    c.en.log("index", c.did, [v, i], c.st, [None, None], c.e.get("sp"), None, c.e, kind="index")
    r = index_at(v, i)
    return mutate(c, mk("vremove", v, i), r)


@reg("vec", "clear")
def _(c):
    v = v0(c)
    return mutate(c, coll(v.a[0] if v.op == "coll" else "vec", []))


@reg("*", "clear")
def _(c):
    v = v0(c)
    ty = kind_of(tyof(c.en, c.e, 0).get("s", "")) or "vec"
    return mutate(c, S("") if ty == "string" else coll(ty, []))


@reg("vec", "truncate")
def _(c):
    v, n = v0(c), c.en.deref(c.st, c.args[1])
    return mutate(c, slice_(v, I(0), n))


@reg("*", "drain")
def _(c):
    v = v0(c)
    i = c.en.deref(c.st, c.args[1])
    rp = range_parts(i, v)
    if rp and isint(rp[0]) and rp[0].a[1] == 0 and rp[1] is length(v):
        mutate(c, coll("vec", []))
        return v
    return NotImplemented


@reg("*", "retain")
def _(c):
    if c.args[0].op != "mref" or c.fam not in ("vec", "set"):
        return NotImplemented
    v = v0(c)
    new = it_filter(c, v, c.args[1])
    if new.op == "coll" and c.fam == "set":
        new = coll("set", new.a[1])
    return mutate(c, new, evargs=[v])


X = mk("sym", "$x")
K = mk("sym", "$k")      # bound variable of the key of a sorted list
XA = mk("sym", "$a")
XB = mk("sym", "$b")


def sort_key(c, f, mode):
    """key term in X of a comparison/key closure; None if it is not of that shape"""
    en = c.en
    s = c.st.copy()
    mark = len(en.events)
    if mode == "key":
        r = ap(c, f, [X], s)
        del en.events[mark:]
        return en.deref(s, r)
    r = en.deref(s, ap(c, f, [XA, XB], s))
    del en.events[mark:]
    return cmp_key(r)


def cmp_key(r):
    if r.op == "cmp":
        ka, kb = subst(r.a[0], {XA: X}), subst(r.a[1], {XB: X})
        if ka is kb and not mentions(ka, frozenset([XA, XB])):
            return ka
        ka, kb = subst(r.a[0], {XB: X}), subst(r.a[1], {XA: X})
        if ka is kb and not mentions(ka, frozenset([XA, XB])):
            return mk("Reverse", ka)
    return mk("sortcmp", r)


def sorted_val(en, v, key):
    """v sorted by key (a term over X)"""
    key = subst(key, {K: X})
    if v.op == "choice":
        return choice([(sorted_val(en, x, key), g) for x, g in alts(v)])
    if v.op == "sorted" and v.a[1] is subst(key, {X: K}):
        return v
    if v.op == "coll" and len(v.a[1]) == 1 and v.a[1][0].op == "piece" and len(v.a[1][0].a[0]) == 1:
        p = v.a[1][0]
        e = p.a[0][0]
        k2 = subst(subst(key, {X: p.a[2]}), {e: X})
        if not mentions(k2, frozenset([e])):
            ne = elem(mk("sorted", see_through(e.a[0]), subst(k2, {X: K})), e.a[1])
            m = {e: ne}
            return coll(v.a[0], [piece((ne,), subst_node(p.a[1], m), subst(p.a[2], m))])
    return mk("sorted", see_through(v), subst(key, {X: K}))


@reg("vec", "sort", "sort_unstable")
def _(c):
    v = v0(c)
    return mutate(c, sorted_val(c.en, v, X), ev="sort", evargs=[v, X])


@reg("vec", "sort_by", "sort_unstable_by")
def _(c):
    v = v0(c)
    k = sort_key(c, c.args[1], "cmp")
    return mutate(c, sorted_val(c.en, v, k), ev="sort", evargs=[v, k])


@reg("vec", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(c):
    v = v0(c)
    k = sort_key(c, c.args[1], "key")
    return mutate(c, sorted_val(c.en, v, k), ev="sort", evargs=[v, k])


@reg("vec", "dedup")
def _(c):
    v = v0(c)
    return mutate(c, mk("dedup", v))


@reg("vec", "dedup_by", "dedup_by_key")
def _(c):
    v = v0(c)
    x, y = mk("sym", "$x"), mk("sym", "$y")
    p = ap(c, c.args[1], [x, y], c.st) if c.name == "dedup_by" else B(eq(ap(c, c.args[1], [x], c.st), ap(c, c.args[1], [y], c.st)))
    if as_node(p) == as_node(B(eq(x, y))):
        return mutate(c, mk("dedup", v))
    return mutate(c, mk("call", "dedup_by", v, p))


@reg("vec", "reverse")
def _(c):
    v = v0(c)
    return mutate(c, mk("rev", v))


@reg("vec", "contains")
def _(c):
    return B(contains(v0(c), c.en.deref(c.st, c.args[1])))


def bsearch(c, v, key, target):
    """result of a binary search of target among key(elements)"""
    en = c.en
    en.log("binary_search", c.did, [v, key, target], c.st, [None] * 3, c.e.get("sp"), None, c.e, kind="bsearch")
    if v.op == "choice":
        return choice([(searched(c, x, key, target, v), n) for x, n in alts(v)])
    return searched(c, v, key, target)


def searched(c, v, key, target, whole=None):
    en = c.en
    ps = en.pieces(v)
    r = err(mk("inspos", whole or v, target))
    for es, n, w in reversed(ps):
        es, n, w = en.fresh_gens(es, n, w)
        hit = b_and(n, eq(subst(key, {X: w}), target))
        if len(es) == 1 and n == 1:
            f = pick("fst", tuple(unsorted(es)), unsorted_node(es, hit), unsorted(es)[0])
            r = ite(exists(es, hit), ok(mk("idx", f)), r)
        elif es:
            r = ite(exists(es, hit), ok(mk("bsidx", v, target)), r)
        else:
            r = ite(hit, ok(mk("bsidx", v, target)), r)
    return r


def unsorted(es):
    return tuple(elem(see_through(e.a[0]), e.a[1]) for e in es)


def unsorted_node(es, n):
    m = {e: elem(see_through(e.a[0]), e.a[1]) for e in es if see_through(e.a[0]) is not e.a[0]}
    return subst_node(n, m) if m else n


@reg("vec", "binary_search")
def _(c):
    return bsearch(c, v0(c), X, c.en.deref(c.st, c.args[1]))


@reg("vec", "binary_search_by_key")
def _(c):
    k = sort_key(c, c.args[2], "key")
    return bsearch(c, v0(c), k, c.en.deref(c.st, c.args[1]))


@reg("vec", "binary_search_by")
def _(c):
    en = c.en
    s = c.st.copy()
    mark = len(en.events)
    r = en.deref(s, ap(c, c.args[1], [X], s))
    del en.events[mark:]
    xs = frozenset([X])
    if r.op == "cmp":
        a, b = r.a
        if mentions(a, xs) and not mentions(b, xs):
            return bsearch(c, v0(c), a, b)
    en.log("binary_search", c.did, [v0(c), mk("badcmp", r), mk("undef")], c.st, [None] * 3, c.e.get("sp"), None, c.e, kind="bsearch")
    return mk("call", "binary_search_by", v0(c), r)


@reg("vec", "partition_point")
def _(c):
    return NotImplemented


@reg("vec", "join")
def _(c):
    return pure(c, "join")


@reg("vec", "concat")
def _(c):
    return pure(c, "concat")


@reg("vec", "swap")
def _(c):
    return NotImplemented


# ---- maps
@reg("map", "get")
def _(c):
    return map_get(v0(c), c.en.deref(c.st, c.args[1]))


@reg("map", "get_key_value")
def _(c):
    m = map_get(v0(c), c.en.deref(c.st, c.args[1]))
    return ite(is_node(m, OPT, "Some"), some(mk("tup", c.en.deref(c.st, c.args[1]), proj(m, OPT, "Some", "0"))), NONE)


@reg("map", "get_mut")
def _(c):
    k = c.en.deref(c.st, c.args[1])
    m = map_get(v0(c), k)
    r = c.args[0]
    if r.op == "mref":
        return ite(is_node(m, OPT, "Some"), some(mk("mref", r.a[0], r.a[1] + (("k", k),))), NONE)
    return m


@reg("map", "contains_key")
def _(c):
    return B(is_node(map_get(v0(c), c.en.deref(c.st, c.args[1])), OPT, "Some"))


@reg("map", "insert")
def _(c):
    m, k, v = v0(c), c.en.deref(c.st, c.args[1]), keep(c, c.args[2])
    old = map_get(m, k)
    return mutate(c, set_comp(m, ("k", k), v), old, ev="map_insert", evargs=[m, k, v])


@reg("map", "remove")
def _(c):
    m, k = v0(c), c.en.deref(c.st, c.args[1])
    old = map_get(m, k)
    return mutate(c, mk("rm", m, k), old, ev="map_remove", evargs=[m, k])


@reg("map", "remove_entry")
def _(c):
    m, k = v0(c), c.en.deref(c.st, c.args[1])
    old = map_get(m, k)
    return mutate(c, mk("rm", m, k), ite(is_node(old, OPT, "Some"), some(mk("tup", k, proj(old, OPT, "Some", "0"))), NONE), ev="map_remove", evargs=[m, k])


@reg("map", "entry")
def _(c):
    r, k = c.args[0], c.en.deref(c.st, c.args[1])
    return mk("entry", r, k)


def entry_or(c, f):
    en, st = c.en, c.st
    ent = c.args[0]
    if ent.op != "entry" or ent.a[0].op != "mref":
        return NotImplemented
    r, k = ent.a
    m = en.deref(st, r)
    cur = map_get(m, k)
    n = is_node(cur, OPT, "Some")
    val = branch(en, st, n, lambda s: proj(cur, OPT, "Some", "0"), f)
    m = en.deref(st, r)
    en.log("entry_insert", c.did, [m, k, val], st, [en.norm_place(st, (r.a[0], r.a[1])), None, None], c.e.get("sp"), None, c.e, kind="mutate")
    en.write_ref(st, r, set_comp(m, ("k", k), val))
    root, path = r.a
    v = st.env.get(root)
    while v is not None and v.op == "mref":
        root, path = v.a[0], v.a[1] + path
        v = st.env.get(root)
    return mk("mref", root, path + (("k", k),))


@reg("entry", "or_insert_with")
def _(c):
    return entry_or(c, lambda s: ap(c, c.args[1], [], s))


@reg("entry", "or_insert")
def _(c):
    x = keep(c, c.args[1])
    return entry_or(c, lambda s: x)


@reg("entry", "or_default")
def _(c):
    d = default_of(c.en, tys(c.en, c.e.get("ty")))
    return entry_or(c, lambda s: d if d is not None else mk("default"))


@reg("entry", "and_modify")
def _(c):
    ent = c.args[0]
    if ent.op != "entry" or ent.a[0].op != "mref":
        return NotImplemented
    r, k = ent.a
    m = c.en.deref(c.st, r)
    cur = map_get(m, k)
    ref = mk("mref", r.a[0], r.a[1] + (("k", k),))
    branch(c.en, c.st, is_node(cur, OPT, "Some"), lambda s: ap(c, c.args[1], [ref], s), lambda s: UNIT)
    return ent


@reg("entry", "key")
def _(c):
    return c.args[0].a[1] if c.args[0].op == "entry" else NotImplemented


@reg("map", "values", "into_values")
def _(c):
    return map_side(c, "1")


@reg("map", "keys", "into_keys")
def _(c):
    return map_side(c, "0")


def map_side(c, n):
    v = v0(c)
    return coll("vec", [piece(es, g, field(w, n)) for es, g, w in c.en.pieces(v)])


# ---- sets
@reg("set", "insert")
def _(c):
    s, x = v0(c), keep(c, c.args[1])
    n = contains(s, x)
    return mutate(c, push_to(s, "set", piece((), 1, x)), B(b_not(n)), ev="set_insert", evargs=[s, x])


@reg("set", "contains")
def _(c):
    return B(contains(v0(c), c.en.deref(c.st, c.args[1])))


@reg("set", "remove")
def _(c):
    s, x = v0(c), c.en.deref(c.st, c.args[1])
    n = contains(s, x)
    return mutate(c, mk("srm", s, x), B(n), ev="set_remove", evargs=[s, x])


@reg("set", "append")
def _(c):
    v, w = v0(c), c.en.deref(c.st, c.args[1])
    new = extend_with(c, v, w, "set")
    c.en.write_ref(c.st, c.args[1], coll("set", []))
    return mutate(c, new, ev="extend", evargs=[v, w])


@reg("set", "get")
def _(c):
    s, x = v0(c), c.en.deref(c.st, c.args[1])
    return ite(contains(s, x), some(x), NONE)


@reg("set", "pop_first", "pop_last")
def _(c):
    v = v0(c)
    r = ite(nonempty(v), some(mk(c.name, v)), NONE)
    return mutate(c, mk(c.name + "_rest", v), r)


@reg("set", "is_subset", "is_superset", "is_disjoint")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    if c.name == "is_superset":
        a, b = b, a
    r = 1
    for es, n, w in c.en.pieces(a):
        es, n, w = c.en.fresh_gens(es, n, w)
        h = contains(b, w)
        if c.name != "is_disjoint":
            h = b_not(h)
        r = b_and(r, b_not(exists(es, b_and(n, h))))
    return B(r)


# ---- iterators
@reg("iter", "into_iter", "iter", "by_ref", "cloned", "copied", "peekable", "fuse")
def _(c):
    if c.name in ("cloned", "copied", "fuse", "peekable", "into_iter", "iter"):
        v = c.args[0]
        if v.op == "mref" and c.name == "into_iter":
            return v
        return c.en.deref(c.st, v)
    return c.args[0]


@reg("iter", "map")
def _(c):
    return it_map(c, v0(c), c.args[1])


@reg("iter", "filter")
def _(c):
    return it_filter(c, v0(c), c.args[1])


@reg("iter", "filter_map")
def _(c):
    return it_filter_map(c, v0(c), c.args[1])


@reg("iter", "flat_map")
def _(c):
    return it_flat_map(c, v0(c), c.args[1])


@reg("iter", "flatten")
def _(c):
    en = c.en
    out = []
    for es, n, w in pieces_opt(c, 0, v0(c)):
        es, n, w = en.fresh_gens(es, n, w)
        en.open_elems.extend(es)
        for es2, n2, x in pieces_typed(c, w):
            es2, n2, x = en.fresh_gens(es2, n2, x)
            out.append(piece(tuple(es) + tuple(es2), b_and(n, n2), x))
        if es:
            del en.open_elems[-len(es):]
    return mkcoll("vec", out)


def pieces_typed(c, w):
    """pieces of the items of a flattened iterator (items may be opaque options)"""
    s = norm_ty(tyof(c.en, c.e, 0).get("s", ""))
    if w.op in ("V", "choice", "coll"):
        return c.en.pieces(w)
    m = re.search(r"option::Option<", s)
    if m and not re.search(r"Vec<|slice::Iter<'?\w*,? ?std::vec", s):
        return [((), is_node(w, OPT, "Some"), proj(w, OPT, "Some", "0"))]
    return c.en.pieces(w)


@reg("iter", "chain")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    return mkcoll("vec", [piece(es, n, w) for es, n, w in pieces_opt(c, 0, a) + pieces_opt(c, 1, b)])


def pieces_opt(c, i, v):
    s = norm_ty(tyof(c.en, c.e, i).get("s", ""))
    if v.op not in ("V", "choice", "coll") and (is_optty(s) or re.match(r"(std|core)::option::(IntoIter|Iter)<", s)):
        return [((), is_node(v, OPT, "Some"), proj(v, OPT, "Some", "0"))]
    return c.en.pieces(v)


@reg("iter", "zip")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    return mk("zip", a, b)


@reg("iter", "enumerate")
def _(c):
    return mk("idxd", v0(c))


@reg("iter", "rev")
def _(c):
    v = v0(c)
    return mk("rev", v)


@reg("iter", "skip")
def _(c):
    v, n = v0(c), c.en.deref(c.st, c.args[1])
    if isint(n) and n.a[1] == 0:
        return v
    return mk("skip", v, n)


@reg("iter", "take")
def _(c):
    v, n = v0(c), c.en.deref(c.st, c.args[1])
    if v.op == "coll" and len(v.a[1]) == 1 and len(v.a[1][0].a[0]) == 1 and v.a[1][0].a[1] == 1:
        p = v.a[1][0]
        e = p.a[0][0]
        e2 = elem(slice_(e.a[0], I(0), n), e.a[1])
        return mkcoll("vec", [piece((e2,), 1, subst(p.a[2], {e: e2}))])
    if v.op in ("sym", "field", "call", "slice", "at", "proj"):
        return slice_(v, I(0), n)
    if v.op == "idxd":
        return mk("idxd", slice_(v.a[0], I(0), n)) if v.a[0].op in ("sym", "field", "call", "slice", "at", "proj") else mk("?take", v, n)
    return opaque(c)


def quant(c, v, f):
    """[(es, n & result)] of a predicate over pieces, or None when it has side effects"""
    out = []

    def after(es, n, w, r, s):
        if s is not None:
            out.append(None)
        else:
            out.append((es, b_and(n, as_node(r)), w, r, n))
    over(c, v, f, after)
    return out


@reg("iter", "any")
def _(c):
    v = v0(c)
    return loopq(c, v, "any")


@reg("iter", "all")
def _(c):
    return loopq(c, v0(c), "all")


def effectful(c, v, f):
    """does calling f on the elements change the environment?"""
    en, st = c.en, c.st
    mark = len(en.events)
    n0 = (en.nact, en.nlid, en.ntmp)
    s = st.copy()
    before = dict(s.env)
    res = False
    for es, n, w in en.pieces(v):
        s2 = s.copy(n if n else 1)
        en.open_elems.extend(es)
        try:
            ap(c, f, [w], s2)
        finally:
            if es:
                del en.open_elems[-len(es):]
        if [k for k in en.changed(before, s2.env) if k in st.env or k[0] == "H"]:
            res = True
    del en.events[mark:]
    return res


def loopq(c, v, mode):
    en, st = c.en, c.st
    f = c.args[1]
    if not effectful(c, v, f):
        out = quant(c, v, f)
        if mode == "any":
            return B(b_or(*[exists(es, n) for es, n, w, r, n0 in out]))
        if mode == "all":
            return B(b_not(b_or(*[exists(es, b_and(n0, b_not(as_node(r)))) for es, n, w, r, n0 in out])))
        if mode == "find":
            return first_of(en, [(es, n, w) for es, n, w, r, n0 in out])
        if mode == "find_map":
            ps = []
            for es, n, w, r, n0 in out:
                ps.append((es, b_and(n0, is_node(r, OPT, "Some")), proj(r, OPT, "Some", "0")))
            return first_of(en, ps)
    # with side effects: a loop that stops at the first hit
    root = acc_root(en, c)
    st.env[root] = {"any": FALSE, "all": TRUE}.get(mode, NONE)
    from .engine import Exit
    for es, n, w in en.pieces(v):
        es, n, w = en.fresh_gens(es, n, w)

        def run_item(w2, place, s2):
            r = en.deref(s2, ap(c, f, [w2], s2))
            if s2.g == 0:
                return
            if mode == "any":
                h, val = as_node(r), TRUE
            elif mode == "all":
                h, val = b_not(as_node(r)), FALSE
            elif mode == "find":
                h, val = as_node(r), some(w2)
            else:
                h, val = is_node(r, OPT, "Some"), r
            s3 = s2.copy(b_and(s2.g, h))
            if s3.g:
                s3.env[root] = val
                for cc in reversed(en.ctl):
                    if cc.kind == "loop":
                        cc.breaks.append(Exit(en.snap(s3), UNIT))
                        break
            s2.g = b_and(s2.g, b_not(h))
        en.one_for(es, n, w, None, st, c.act, run_item, ("it", en.new_lid()), c.e.get("sp"))
    return st.env.pop(root)


@reg("iter", "find")
def _(c):
    return loopq(c, v0(c), "find")


@reg("iter", "rfind")
def _(c):
    f, v = c.args[1], v0(c)
    if effectful(c, v, f):
        return mk("call", "?rfind", v)
    r = NONE
    for es, n, w, x, n0 in quant(c, v, f):
        m = {e: pick("lst", tuple(es), n, e) for e in es}
        r = ite(exists(es, n), some(subst(w, m) if es else w), r)
    return r


@reg("iter", "find_map")
def _(c):
    return loopq(c, v0(c), "find_map")


@reg("iter", "position", "rposition")
def _(c):
    v = v0(c)
    out = quant(c, v, c.args[1])
    if len(out) == 1 and out[0] is not None:
        es, n, w, r, n0 = out[0]
        if len(es) == 1 and n0 == 1:
            k = "fst" if c.name == "position" else "lst"
            return ite(exists(es, n), some(mk("idx", mk(k, tuple(es), n, es[0]))), NONE)
        if es:
            return ite(exists(es, n), some(mk("posn", v, tuple(es), n)), NONE)
    if out and all(o is not None and not o[0] and o[4] == 1 for o in out):
        res = NONE
        for i, (es, n, w, r, n0) in reversed(list(enumerate(out))):
            res = ite(n, some(I(i)), res)
        return res
    return mk("call", "?position", v)


@reg("iter", "next")
def _(c):
    r = c.args[0]
    v = v0(c)
    if r.op == "mref":
        ps = c.en.pieces(v)
        if v.op == "coll" and ps and not ps[0][0] and ps[0][1] == 1:
            c.en.write_ref(c.st, r, coll("vec", list(v.a[1])[1:]))
            return some(ps[0][2])
        plain = len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == 1
        if v.op == "coll" and not ps:
            return NONE
        if v.op in ("phi", "slice", "tailof") or (v.op not in ("coll", "choice", "sorted") and plain):
            c.en.write_ref(c.st, r, slice_(v, I(1), length(v)))
            return nth(v, I(0))
        c.en.write_ref(c.st, r, mk("tailof", v))
        return first_of(c.en, ps)
    return first_of(c.en, c.en.pieces(v))


@reg("iter", "nth")
def _(c):
    v, n = v0(c), c.en.deref(c.st, c.args[1])
    if isint(n) and n.a[1] == 0:
        return TABLE[("iter", "next")](c)
    ps = c.en.pieces(v)
    if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == 1:
        return nth(v, n)
    if isint(n):
        # there is such an element if the iterator has more than n of them
        more = lift_node(lambda x: gt_const(x, n.a[1]), count_of(c.en, v))
        return ite(more, some(mk("call", "nth", v, n)), NONE)
    return mk("call", "nth", v, n)


@reg("iter", "peek")
def _(c):
    v = v0(c)
    return first_of(c.en, c.en.pieces(v))


@reg("iter", "last")
def _(c):
    v = v0(c)
    r = NONE
    for es, n, w in c.en.pieces(v):
        m = {e: pick("lst", tuple(es), n, e) for e in es}
        r = ite(exists(es, n), some(subst(w, m) if es else w), r)
    return r


@reg("iter", "for_each")
def _(c):
    en, st = c.en, c.st
    for es, n, w in en.pieces(v0(c)):
        es, n, w = en.fresh_gens(es, n, w)

        def run_item(w2, place, s2):
            ap(c, c.args[1], [w2], s2)
        en.one_for(es, n, w, None, st, c.act, run_item, ("it", en.new_lid()), c.e.get("sp"))
    return UNIT


@reg("iter", "try_for_each")
def _(c):
    return NotImplemented


@reg("iter", "fold")
def _(c):
    en, st = c.en, c.st
    root = acc_root(en, c)
    st.env[root] = en.deref(st, c.args[1])
    for es, n, w in en.pieces(v0(c)):
        es, n, w = en.fresh_gens(es, n, w)

        def run_item(w2, place, s2):
            r = ap(c, c.args[2], [s2.env[root], w2], s2)
            if s2.g:
                s2.env[root] = en.deref(s2, r)
        en.one_for(es, n, w, None, st, c.act, run_item, ("it", en.new_lid()), c.e.get("sp"))
    return st.env.pop(root)


@reg("iter", "sum")
def _(c):
    r = I(0)
    for es, n, w in c.en.pieces(v0(c)):
        r = add(r, sum_piece(tuple(es), n, w))
    return r


def sum_piece(es, n, w):
    if not es:
        return w if n == 1 else ite(n, w, I(0))
    if w.op == "choice" and all(isint(x) for x in w.a[1:]):
        r = I(0)
        for x, g in alts(w):
            for _ in range(min(x.a[1], 8)):
                r = add(r, mk("count", es, b_and(n, g)))
        return r
    if isint(w) and 0 <= w.a[1] <= 8:
        r = I(0)
        for _ in range(w.a[1]):
            r = add(r, mk("count", es, n))
        return r
    return mk("sum", es, n, w)


@reg("iter", "collect")
def _(c):
    en = c.en
    v = v0(c)
    ty = norm_ty(tys(en, c.e.get("ty")))
    k = kind_of(ty)
    if k is None:
        if ty.split("<")[0].endswith(("Box", "Rc", "Arc")):
            k = "vec"
        else:
            return lifted_call("collect", [v])
    if k == "string":
        return lifted_call("concat", [v])
    if v.op == "coll":
        return mkcoll(k, v.a[1])
    if k == "vec":
        return v if v.op != "choice" else v
    return mkcoll(k, [piece(es, n, w) for es, n, w in en.pieces(v)])


@reg("iter", "partition")
def _(c):
    v = v0(c)
    a = it_filter(c, v, c.args[1])
    b = collect_over(c, v, c.args[1], lambda w, r: [((), b_not(as_node(r)), w)])
    return mk("tup", a, b)


@reg("iter", "max_by_key", "min_by_key", "max_by", "min_by", "reduce", "scan", "skip_while", "step_by", "max", "min", "product")
def _(c):
    return pure(c)


@reg("iter", "take_while", "map_while")
def _(c):
    """the first of the elements that pass, up to one that does not"""
    v = v0(c)
    if c.name == "take_while":
        f = it_filter(c, v, c.args[1])
        if f.op != "coll" or all(b_implied(p) for p in f.a[1]):
            return f
    else:
        f = it_filter_map(c, v, c.args[1])
        if f.op == "coll" and not f.a[1]:
            return f
    return mk("call", c.name, f)


def b_implied(p):
    return p.op == "piece" and p.a[1] == 1


@reg("*", "once")
def _(c):
    return coll("vec", [piece((), 1, c.args[0])])


@reg("*", "empty")
def _(c):
    return coll("vec", [])


@reg("*", "from_iter")
def _(c):
    return TABLE[("iter", "collect")](c)


# ---- strings
def slen(p):
    if p.op == "c" and p.a[0] in ("str", "char"):
        return I(len(p.a[1].encode()))
    return length(p)


def pat(c, i):
    """a string pattern argument (char, &str, closure)"""
    p = c.en.deref(c.st, c.args[i])
    if p.op == "c" and p.a[0] == "char":
        return S(p.a[1])
    x = mk("sym", "$c")
    if p.op in ("clos", "fn"):
        s = c.st.copy()
        mark = len(c.en.events)
        r = c.en.deref(s, ap(c, p, [x], s))
        del c.en.events[mark:]
        return mk_pred(as_node(r))
    if p.op == "coll" and p.a[1] and all(q.op == "piece" and not q.a[0] and q.a[1] == 1 and q.a[2].op == "c" and q.a[2].a[0] == "char" for q in p.a[1]):
        return mk_pred(b_or(*[eq(x, q.a[2]) for q in p.a[1]]))
    return p


def mk_pred(n):
    """canonical character class"""
    sup = sorted(support(n))
    if len(sup) == 1 and n == atom(atom_of(sup[0])):
        a = atom_of(sup[0])
        if a.op == "eq":
            for u, v in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if u is mk("sym", "$c") and v.op == "c":
                    return S(v.a[1])
    return mk("pred", B(n))


@reg("str", "find", "rfind")
def _(c):
    return do_find(c.name, v0(c), pat(c, 1))


def do_find(name, s, p):
    return lift(lambda x: mk("call", name, x, p), s)


@reg("str", "contains")
def _(c):
    p = pat(c, 1)
    return B(lift_node(lambda x: is_node(do_find("find", x, p), OPT, "Some"), v0(c)))


@reg("str", "starts_with", "ends_with")
def _(c):
    p = pat(c, 1)
    return B(lift_node(lambda x: sw(c.name, x, p), v0(c)))


def sw(name, x, p):
    if x.op == "c" and p.op == "c":
        return 1 if (x.a[1].startswith(p.a[1]) if name == "starts_with" else x.a[1].endswith(p.a[1])) else 0
    return atom(mk("call", name, x, p))


@reg("str", "strip_prefix")
def _(c):
    p = pat(c, 1)
    return lift(lambda x: ite(sw("starts_with", x, p), some(slice_(x, slen(p), length(x))), NONE), v0(c))


@reg("str", "strip_suffix")
def _(c):
    p = pat(c, 1)
    return lift(lambda x: ite(sw("ends_with", x, p), some(slice_(x, I(0), add(length(x), slen(p), -1))), NONE), v0(c))


@reg("str", "split_once", "rsplit_once")
def _(c):
    p = pat(c, 1)
    nm = "find" if c.name == "split_once" else "rfind"

    def f(x):
        o = do_find(nm, x, p)
        i = proj(o, OPT, "Some", "0")
        return ite(is_node(o, OPT, "Some"), some(mk("tup", slice_(x, I(0), i), slice_(x, add(i, slen(p)), length(x)))), NONE)
    return lift(f, v0(c))


@reg("str", "split_at")
def _(c):
    x, i = v0(c), c.en.deref(c.st, c.args[1])
    return mk("tup", slice_(x, I(0), i), slice_(x, i, length(x)))


@reg("str", "get")
def _(c):
    base, i = v0(c), c.en.deref(c.st, c.args[1])
    r = range_parts(i, base)
    if r is None:
        return NotImplemented
    okn = b_and(b_not(lt(r[1], r[0])), b_not(lt(length(base), r[1])))
    return ite(okn, some(slice_(base, r[0], r[1])), NONE)


@reg("str", "chars", "bytes", "lines", "char_indices", "split", "splitn", "rsplit", "rsplitn", "split_whitespace", "matches", "match_indices",
     "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "parse", "replace", "split_terminator",
     "trim_start_matches", "trim_end_matches", "trim_matches", "split_inclusive", "is_char_boundary", "eq_ignore_ascii_case", "replacen", "repeat",
     "from_utf8", "from_utf8_lossy", "from_str")
def _(c):
    vals = [v0(c)] + [pat(c, i) for i in range(1, len(c.args))]
    n = c.name
    if n == "parse":
        s = norm_ty(tys(c.en, c.e.get("ty")))
        b = local_fromstr(c.en, s)
        if b is not None and not c.en.is_opaque(b) and c.en.stack.count(b["did"]) < 1:
            return c.en.call_body(b, c.en.new_act(), [vals[0]], c.st)
        n = parse_name(s)
    elif n == "from_str" and norm_ty(tys(c.en, c.e.get("ty"))).startswith("std::result::Result<"):
        n = parse_name(norm_ty(tys(c.en, c.e.get("ty"))))
    r = lifted_call(n, vals)
    c.en.log(c.name, c.did, vals, c.st, [None] * len(vals), c.e.get("sp"), r, c.e, kind="pure")
    return r


def parse_name(resty):
    """one name for parsing a type, whether by str::parse, FromStr or its own function"""
    m = re.match(r"std::result::Result<(\w+)::", resty)
    return ("" if not m or m.group(1) in ("std", "core", "alloc") else m.group(1) + "_") + "parse:" + resty


def local_fromstr(en, resty):
    m = re.match(r"std::result::Result<([^,]+)", resty)
    if not m:
        return None
    for b in en.p.bodies:
        if b.get("name") == "from_str" and (b.get("itrait") or "").endswith("FromStr") and norm_ty(b.get("self")) == m.group(1).strip():
            return b
    return None


def str_push(v, x):
    if v.op == "choice":
        return lift(lambda y: str_push(y, x), v)
    if v.op == "c" and x.op == "c":
        return S(v.a[1] + x.a[1])
    if v.op == "c" and v.a[1] == "":
        return x if x.op != "c" else S(x.a[1])
    return text(v, x)


def text(*parts):
    """a text put together from its parts: nested texts are flattened, adjacent constants joined"""
    out = []
    for x in parts:
        for y in x.a if x.op == "fmt" and len(x.a) > 1 else (x,):
            if y.op == "c" and isinstance(y.a[1], str) and out and out[-1].op == "c" and isinstance(out[-1].a[1], str):
                out[-1] = S(out[-1].a[1] + y.a[1])
            elif not (y.op == "c" and y.a[1] == ""):
                out.append(y)
    return mk("fmt", *out) if out else S("")


@reg("str", "push_str", "push")
def _(c):
    v, x = v0(c), c.en.deref(c.st, c.args[1])
    return mutate(c, str_push(v, x), ev="push_str", evargs=[v, x])


@reg("str", "truncate")
def _(c):
    v, n = v0(c), c.en.deref(c.st, c.args[1])
    return mutate(c, slice_(v, I(0), n), evargs=[v, n])


@reg("str", "pop")
def _(c):
    v = v0(c)
    return mutate(c, mk("strpoprest", v), mk("call", "strpop", v))


@reg("str", "insert", "insert_str")
def _(c):
    v = v0(c)
    return mutate(c, mk("strins", v, *[c.en.deref(c.st, a) for a in c.args[1:]]))


for _n in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii",
           "is_whitespace", "is_ascii_whitespace", "is_absolute", "is_relative", "is_null", "is_object", "is_array", "is_string", "is_number", "is_boolean", "success", "exists", "is_ascii_hexdigit",
           "is_uppercase", "is_lowercase", "is_ascii_uppercase", "is_ascii_lowercase", "is_file", "is_dir"):
    TABLE[("*", _n)] = lambda c: B(lift_node(lambda x: atom(mk("call", c.name, x)), v0(c)))


for _n in ("starts_with", "ends_with"):
    TABLE[("*", _n)] = lambda c: B(lift_node(lambda x: atom(mk("call", "path_" + c.name, x, c.en.deref(c.st, c.args[1]))), v0(c)))


@reg("*", "matches")
def _(c):
    # semver::VersionReq::matches / cfg_expr TargetPredicate::matches
    a = [c.en.deref(c.st, x) for x in c.args]
    d = c.e.get("did") or ""
    nm = ("semver_" if d.startswith("semver") else "cfg_" if d.startswith("cfg_expr") else "") + "matches"
    return B(lift_node(lambda x: atom(mk("call", nm, x, *a[1:])), a[0]))


@reg("*", "parse")
def _(c):
    d = c.e.get("did") or ""
    v = v0(c)
    nm = parse_name(norm_ty(tys(c.en, c.e.get("ty"))))
    r = lifted_call(nm, [v])
    c.en.log("parse", c.did, [v], c.st, [None], c.e.get("sp"), r, c.e, kind="pure")
    return r


@reg("*", "eval")
def _(c):
    """cfg_expr::Expression::eval(expr, predicate closure)"""
    d = c.e.get("did") or ""
    if not d.startswith("cfg_expr"):
        return NotImplemented
    en = c.en
    p = mk("sym", "$pred")
    s = c.st.copy()
    r = en.deref(s, ap(c, c.args[1], [p], s))
    # writes made by the predicate closure
    ch = [k for k in en.changed(c.st.env, s.env) if k in c.st.env or k[0] == "H"]
    for k in ch:
        c.st.env[k] = mk("havoc", mk("sym", "eval"), s.env[k])
    n = as_node(r)
    v = v0(c)
    return B(lift_node(lambda x: atom(mk("cfgeval", x, B(n))), v))


for _n in ("parent", "file_name", "file_stem", "extension", "components", "join", "with_extension", "canonicalize", "predicates", "raw_edges",
           "edges_directed", "node_count", "edge_count", "raw_nodes", "node_weight", "edge_weight", "edges", "neighbors", "neighbors_directed",
           "node_indices", "edge_indices", "find_edge", "get_builtin_target_by_triple", "source", "target", "id", "to_digit", "with_file_name",
           "strip_prefix", "node_references", "edge_references", "display", "weight", "to_string_lossy", "to_str", "file_type", "is_prerelease"):
    def _mk(n):
        def f(c):
            vals = [c.en.deref(c.st, a) for a in c.args]
            r = lifted_call(n, vals)
            c.en.log(n, c.did, vals, c.st, [None] * len(vals), c.e.get("sp"), r, c.e, kind="pure")
            return r
        return f
    if ("*", _n) not in TABLE:
        TABLE[("*", _n)] = _mk(_n)


def raw_nodes(c):
    return mk("call", "raw_nodes", v0(c))


@reg("petgraph", "node_indices")
def _(c):
    e = elem(raw_nodes(c))
    return coll("vec", [piece((e,), 1, mk("idx", e))])


@reg("petgraph", "node_weights")
def _(c):
    e = elem(raw_nodes(c))
    return coll("vec", [piece((e,), 1, field(e, "weight"))])


@reg("petgraph", "node_references")
def _(c):
    e = elem(raw_nodes(c))
    return coll("vec", [piece((e,), 1, mk("tup", mk("idx", e), field(e, "weight")))])


@reg("petgraph", "node_count")
def _(c):
    return length(raw_nodes(c))


@reg("petgraph", "node_weight")
def _(c):
    i = c.en.deref(c.st, c.args[1])
    if i.op == "call" and i.a[0] in ("source", "target") and i.a[1].op == "elem" and i.a[1].a[0].op == "call" and i.a[1].a[0].a[1] is v0(c):
        return some(index_at(v0(c), i))         # both ends of an edge are nodes of its graph
    return ite(lt(i, length(raw_nodes(c))), some(index_at(v0(c), i)), NONE)


@reg("petgraph", "edges", "edges_directed")
def _(c):
    d = c.en.deref(c.st, c.args[2]) if len(c.args) > 2 else V("petgraph::Direction", "Outgoing")
    vals = [v0(c), c.en.deref(c.st, c.args[1]), d]
    r = lifted_call("edges_directed", vals)
    c.en.log("edges_directed", c.did, vals, c.st, [None] * len(vals), c.e.get("sp"), r, c.e, kind="pure")
    return r


@reg("petgraph", "neighbors", "neighbors_directed")
def _(c):
    # the other ends of the edges of that direction, in the same order
    d = c.en.deref(c.st, c.args[2]) if len(c.args) > 2 else V("petgraph::Direction", "Outgoing")
    if d.op != "V":
        return NotImplemented
    es = mk("call", "edges_directed", v0(c), c.en.deref(c.st, c.args[1]), d)
    e = elem(es)
    return coll("vec", [piece((e,), 1, mk("call", "source" if d.a[1] == "Incoming" else "target", e))])


@reg("petgraph", "weight")
def _(c):
    return mk("call", "weight", v0(c))


@reg("petgraph", "add_node")
def _(c):
    g, w = v0(c), keep(c, c.args[1])
    r = mk("node_id", g, w)
    return mutate(c, push_to(g, "graph", piece((), 1, V("GraphOp", "node", ("0",), w))), r, evargs=[g, w])


@reg("petgraph", "add_edge", "update_edge")
def _(c):
    g = v0(c)
    a = [keep(c, x) for x in c.args[1:]]
    r = mk("edge_id", g, *a)
    return mutate(c, push_to(g, "graph", piece((), 1, V("GraphOp", "edge", ("0", "1", "2"), *a))), r, evargs=[g] + a)


@reg("petgraph", "reserve_nodes", "reserve_edges")
def _(c):
    return UNIT


@reg("*", "reserve", "reserve_exact", "shrink_to_fit")
def _(c):
    return UNIT


# ---- numbers
@reg("num", "saturating_sub")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    return ite(lt(a, b), I(0), add(a, b, -1))


@reg("num", "checked_sub")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    return ite(lt(a, b), NONE, some(add(a, b, -1)))


@reg("num", "wrapping_add", "saturating_add", "unchecked_add")
def _(c):
    return c.en.bin("Add", v0(c), c.en.deref(c.st, c.args[1]))


@reg("num", "pow")
def _(c):
    a, b = v0(c), c.en.deref(c.st, c.args[1])
    if isint(a) and isint(b):
        return I(a.a[1] ** b.a[1])
    return NotImplemented


# ---- formatting
def fmt_new(c):
    vals = [c.en.deref(c.st, a) for a in c.args]
    out = []
    for v in vals:
        if v.op == "coll":
            for p in v.a[1]:
                out.append(p.a[2])
        else:
            out.append(v)
    return fmt_template(out)


def fmt_template(out):
    """decode the packed format string (literal runs and plain placeholders)"""
    if not out or out[0].op != "c":
        return mk("fmt", *out)
    b = out[0].a[1]
    if isinstance(b, str) and b.startswith("["):
        try:
            b = bytes(int(x) for x in b[1:-1].split(","))
        except ValueError:
            return mk("fmt", *out)
    if not isinstance(b, (bytes, bytearray)):
        return mk("fmt", *out)
    args = list(out[1:])
    parts, i = [], 0
    while i < len(b):
        n = b[i]
        if n == 0:
            i += 1
            break
        if n < 0x80:
            parts.append(S(b[i + 1:i + 1 + n].decode("utf8", "replace")))
            i += 1 + n
        elif n == 0xC0 and args:
            parts.append(args.pop(0))
            i += 1
        else:
            return mk("fmt", *out)
    if i != len(b) or args:
        return mk("fmt", *out)
    return text(*parts)


@reg("fmt", "from_str")
def _(c):
    return mk("fmt", v0(c))


@reg("fmt", "new_display", "new_debug", "new_lower_hex")
def _(c):
    v = v0(c)
    return v if c.name == "new_display" else mk(c.name, v)


@reg("fmt", "format")
def _(c):
    return v0(c)


@reg("fmt", "write_fmt", "write_str")
def _(c):
    v = c.en.deref(c.st, c.args[1])
    if c.name == "write_str":
        v = mk("fmt", v)
    return write_out(c, c.args[0], v)


def write_out(c, to, v):
    f = c.en.deref(c.st, to)
    c.en.log("write", c.did, [f, v], c.st, [None, None], c.e.get("sp"), None, c.e, kind="write")
    r = mk("call", "write", f, v)
    if to.op == "mref":
        c.en.write_ref(c.st, to, push_to(f, "out", piece((), 1, v)))
    return r


# ---- process::Command builder
def cmd_push(c, *ops):
    v = v0(c)
    r = c.args[0]
    new = v
    for o in ops:
        new = push_to(new, "cmd", o)
    if r.op == "mref":
        mutate(c, new, evargs=[v])
        return r
    return new


@reg("process", "arg")
def _(c):
    return cmd_push(c, piece((), 1, mk("tup", S("arg"), c.en.deref(c.st, c.args[1]))))


@reg("process", "args")
def _(c):
    ops = []
    for es, n, w in c.en.pieces(c.en.deref(c.st, c.args[1])):
        es, n, w = c.en.fresh_gens(es, n, w)
        ops.append(piece(es, n, mk("tup", S("arg"), w)))
    return cmd_push(c, *ops)


@reg("process", "current_dir", "stderr", "stdout", "stdin")
def _(c):
    return cmd_push(c, piece((), 1, mk("tup", S(c.name), c.en.deref(c.st, c.args[1]))))


@reg("process", "env")
def _(c):
    return cmd_push(c, piece((), 1, mk("tup", S("env"), c.en.deref(c.st, c.args[1]), c.en.deref(c.st, c.args[2]))))


@reg("process", "envs")
def _(c):
    ops = []
    for es, n, w in c.en.pieces(c.en.deref(c.st, c.args[1])):
        es, n, w = c.en.fresh_gens(es, n, w)
        ops.append(piece(es, n, mk("tup", S("env"), field(w, "0"), field(w, "1"))))
    return cmd_push(c, *ops)


@reg("process", "env_remove", "env_clear")
def _(c):
    return cmd_push(c, piece((), 1, mk("tup", S(c.name), *[c.en.deref(c.st, a) for a in c.args[1:]])))


# ---- calling function values
@reg("*", "call_mut", "call_once", "call")
def _(c):
    f = c.en.deref(c.st, c.args[0])
    args = c.args[1]
    args = list(args.a) if args.op == "tup" else [args]
    return c.en.call_fn_value(f, args, c.st, c.e.get("sp"), c.e.get("ty"))
