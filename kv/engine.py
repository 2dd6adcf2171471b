"""Abstract interpreter over the THIR dump: gated value numbering of whole functions.

Every function is turned, without being executed, into hash-consed value terms and BDD guards
(terms.py): local helpers and closures are inlined, loops over collections become quantified
terms, work-list loops keep one symbolic iteration with its recurrences.  Calls that are not
understood stay opaque and are logged as events with guard, arguments and loop context.
"""
import json
import re
from . import terms as t
from .terms import *

ORD = "std::cmp::Ordering"
CF = "std::ops::ControlFlow"


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.items = d["items"]
        self.bodies = d["bodies"]
        self.by_did = {b["did"]: b for b in d["bodies"]}
        self.by_path = {}
        for b in d["bodies"]:
            self.by_path.setdefault(b["path"], b)
        ADTS.clear()
        ADTS.update(d["adts"])
        self.from_impls = {}
        for b in d["bodies"]:
            if b.get("name") == "from" and b.get("itrait") == "std::convert::From":
                src = self.types[b["params"][0]["ty"]]["s"]
                dst = b.get("self")
                self.from_impls[(norm_ty(src), norm_ty(dst))] = b
        self.blanket_from = [(d_, b) for (s_, d_), b in self.from_impls.items() if s_ in ("T", "impl")]

    def ty(self, i):
        return self.types[i]["s"] if i is not None else ""

    def find(self, suffix):
        """the unique body whose path ends with the given suffix"""
        c = [b for b in self.bodies if b["path"] == suffix]
        if not c:
            c = [b for b in self.bodies if b["path"].endswith(suffix)]
        return c[0] if len(c) == 1 else None


_ltre = re.compile(r"'[a-z_]\w* ?|&(mut )?")


def norm_ty(s):
    """type text without lifetimes and references"""
    s = re.sub(r"<'[a-z_]\w*>", "", s or "")
    s = re.sub(r"'[a-z_]\w*, ", "", s)
    return _ltre.sub("", s).strip()


class Frame:
    """a symbolic loop the current code runs in"""
    __slots__ = ("kind", "elems", "node", "outer", "lid")

    def __init__(self, kind, elems, node, outer, lid):
        self.kind, self.elems, self.node, self.outer, self.lid = kind, elems, node, outer, lid


class Ev:
    __slots__ = ("name", "did", "args", "places", "g", "frames", "res", "sp", "fn", "node", "targs", "kind", "seq")

    def guard(self):
        """conjunction of the guards on all loop levels"""
        g = self.g
        for f in self.frames:
            g = b_and(g, f.outer)
        return g

    def __repr__(self):
        return "%s(%s) @%s if %s" % (self.name, ", ".join(show(a, 5) for a in self.args), self.sp, show_node(self.guard(), 5))


class St:
    __slots__ = ("g", "env", "pg", "x")

    def __init__(self, g, env):
        self.g = g
        self.env = env
        self.pg = 0

    def copy(self, g=None):
        s = St(self.g if g is None else g, dict(self.env))
        return s


class Exit:
    __slots__ = ("st", "val")

    def __init__(self, st, val):
        self.st, self.val = st, val


class Ctl:
    """control target (function, loop or labelled block)"""
    __slots__ = ("kind", "id", "breaks", "conts")

    def __init__(self, kind, id):
        self.kind, self.id = kind, id
        self.breaks, self.conts = [], []


class LoopRec:
    def __init__(self, lid, sp):
        self.lid, self.sp = lid, sp
        self.phi = {}       # root -> phi value at the head
        self.init = {}      # root -> value before the loop
        self.next = {}      # root -> value after one iteration (over phi)
        self.back = 0       # guard of reaching the next iteration
        self.frames = ()
        self.outer = 1


class Unsupported(Exception):
    pass


class Engine:
    def __init__(self, prog, opaque=(), inline_only=None, max_depth=40):
        self.p = prog
        self.opaque = [re.compile(o) for o in opaque]
        self.events = []
        self.frames = []
        self.ctl = []
        self.stack = []
        self.nact = 0
        self.nlid = 0
        self.ntmp = 0
        self.loops = {}
        self.fors = {}
        self.fnrefs = {}
        self.unknown = []
        self.max_depth = max_depth
        self.open_elems = []
        self.opaque_cache = {}

    # ------------------------------------------------------------ entry
    def run(self, body, args=None):
        """analyse a whole body; returns (value, state)"""
        st = St(1, {})
        act = self.new_act()
        vals = []
        ps = body["params"]
        for i, p in enumerate(ps):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                continue
            vals.append(self.param_sym(p, i))
        v = self.call_body(body, act, vals, st)
        return v, st

    def param_sym(self, p, i):
        pat = p["p"]
        ty = self.p.types[p["ty"]]
        s = mk("sym", "p%d" % i)
        if ty.get("refs") and ty.get("mut"):
            return mk("mref", ("H", s), ())
        return s

    def new_act(self):
        self.nact += 1
        return self.nact

    # ------------------------------------------------------------ env
    def rd(self, st, root, path):
        v = st.env.get(root)
        if v is None:
            v = root[1] if root[0] == "H" else mk("sym", "uninit:%s" % (root[2],))
        for c in path:
            if v.op == "mref":
                v = self.rd(st, v.a[0], v.a[1])
            v = get_comp(v, c)
        return v

    def wr(self, st, root, path, val):
        if not path:
            st.env[root] = val
            return
        base = self.rd(st, root, ())
        st.env[root] = self.set_path(st, base, path, val)

    def set_path(self, st, base, path, val):
        if not path:
            return val
        c = path[0]
        if base.op == "mref":
            self.wr(st, base.a[0], base.a[1] + tuple(path), val)
            return base
        if len(path) == 1:
            return set_comp(base, c, val)
        inner = get_comp(base, c)
        new = self.set_path(st, inner, path[1:], val)
        if inner.op == "mref":
            return base
        return set_comp(base, c, new)

    def deref(self, st, v):
        """value behind (nested) references"""
        n = 0
        while v.op == "mref" and n < 20:
            v = self.rd(st, v.a[0], v.a[1])
            n += 1
        if v.op == "choice" and any(x.op == "mref" for x in v.a[1:]):
            return choice([(self.deref(st, x), g) for x, g in alts(v)])
        return v

    def write_ref(self, st, ref, val):
        if ref.op == "mref":
            # a slot that itself holds a reference: write through
            cur = self.rd(st, ref.a[0], ref.a[1])
            if cur.op == "mref":
                return self.write_ref(st, cur, val)
            self.wr(st, ref.a[0], ref.a[1], val)
        elif ref.op == "choice":
            for r, g in alts(ref):
                if r.op == "mref":
                    old = self.deref(st, r)
                    self.write_ref(st, r, ite(g, val, old))
        else:
            self.wr(st, ("H", ref), (), val)

    # ------------------------------------------------------------ merging
    def merge(self, st, states, conds=None):
        """st := merge of the alive branch states (in place)"""
        pg = b_or(*[s.pg for s in states])
        alive = [s for s in states if s.g != 0]
        if not alive:
            st.g = 0
            st.pg = b_or(st.pg, pg)
            if states:
                st.env = states[0].env
            return
        if len(alive) == 1:
            s = alive[0]
            st.env = s.env
            st.g = b_or(s.g, pg)
            return
        tot = b_or(*[s.g for s in alive])
        keys = {}
        for s in alive:
            for k in s.env:
                keys[k] = None
        first = alive[0].env
        env = {}
        for k in keys:
            vs = [(s.env.get(k), s.g) for s in alive]
            v0 = vs[0][0]
            if all(v is v0 for v, _ in vs):
                env[k] = v0
                continue
            if k[0] == "H":
                vs = [((k[1] if v is None else v), g) for v, g in vs]
            else:
                vs = [(v, g) for v, g in vs if v is not None]
            env[k] = choice_care_ord(vs)
        st.env = env
        st.g = b_or(tot, pg)

    def merge_vals(self, pairs):
        """merge of branch results [(value, guard)]"""
        vs = [(v, g) for v, g in pairs if g != 0]
        if not vs:
            return mk("undef")
        return choice_care_ord(vs)

    # ------------------------------------------------------------ calls to bodies
    def is_opaque(self, body):
        r = self.opaque_cache.get(body["did"])
        if r is None:
            r = any(o.search(body["path"]) for o in self.opaque)
            self.opaque_cache[body["did"]] = r
        return r

    def call_body(self, body, act, vals, st):
        self.stack.append(body["did"])
        params = body["params"]
        if body.get("parent") is not None:
            params = params[1:]
        for i, p in enumerate(params):
            if p["p"] is not None and i < len(vals):
                n = self.bind(p["p"], vals[i], None, st, act)
        c = Ctl("fn", act)
        self.ctl.append(c)
        g0 = st.g
        v = self.ev(body["body"], st, act)
        self.ctl.pop()
        self.stack.pop()
        if c.breaks:
            states = [x.st for x in c.breaks]
            gs = [x.st.g for x in c.breaks]
            fin = st.copy()
            fin.pg = st.pg
            pairs = [(x.val, x.st.g) for x in c.breaks]
            if fin.g:
                pairs.append((v, fin.g))
            states.append(fin)
            v = self.merge_vals(pairs)
            st.pg = 0
            self.merge(st, states)
        return v

    def call_fn_value(self, f, args, st, sp=None, ty=None):
        """call a closure / fn item value"""
        f = self.deref(st, f)
        if f.op == "choice":
            outs, states = [], []
            for x, g in alts(f):
                s = st.copy(b_and(st.g, g))
                if s.g == 0:
                    continue
                r = self.call_fn_value(x, args, s, sp, ty)
                outs.append((r, s.g))
                states.append(s)
            v = self.merge_vals(outs)
            self.merge(st, states)
            return v
        if f.op == "clos":
            b = self.p.by_did.get(f.a[0])
            if b is None or f.a[0] in self.stack and self.stack.count(f.a[0]) > 2:
                return self.opaque_call("apply", "apply", [f] + list(args), st, sp)
            return self.call_body(b, f.a[1], list(args), st)
        if f.op == "fn":
            e = self.fnrefs[f]
            if e.get("ctor"):
                return self.mk_ctor(e, list(args))
            call = dict(e)
            call["k"] = "Call"
            call.setdefault("sp", sp)
            if "ty" not in call or call.get("k0") == "FnRef":
                call["ty"] = ty
            return self.call(call, list(args), st, None)
        return self.opaque_call("apply", "apply", [f] + list(args), st, sp)

    def mk_ctor(self, e, args):
        adt, var = e["ctor"]
        if adt.endswith("borrow::Cow"):
            return args[0]
        return V(adt, var, tuple(str(i) for i in range(len(args))), *args)

    # ------------------------------------------------------------ patterns
    def bind(self, p, val, place, st, act):
        """match val against pattern p: returns the guard and binds variables in st"""
        k = p["k"]
        if k == "Wild" or k == "Never":
            return 1
        if k == "Bind":
            n = 1
            if p.get("sub"):
                n = self.bind(p["sub"], val, place, st, act)
            root = ("L", act, p["v"])
            if p["by"] == "mut":
                if place is None:
                    self.ntmp += 1
                    tr = ("L", act, "tmp%d" % self.ntmp)
                    st.env[tr] = val
                    place = (tr, ())
                st.env[root] = mk("mref", place[0], place[1])
            else:
                st.env[root] = val
            return n
        if val.op == "mref" and k != "Deref":
            place = (val.a[0], val.a[1])
            val = self.deref(st, val)
        if k == "Deref":
            if val.op == "mref":
                return self.bind(p["p"], self.rd(st, val.a[0], val.a[1]), (val.a[0], val.a[1]), st, act)
            return self.bind(p["p"], val, place, st, act)
        if k == "Variant":
            adt = p["adt"]
            n = is_node(val, adt, p["v"])
            for f, q in p["f"]:
                sub = proj(val, adt, p["v"], f)
                pl = (place[0], place[1] + (("p", adt, p["v"], f),)) if place else None
                m = self.bind(q, sub, pl, st, act)
                n = b_and(n, m)
            return n
        if k == "Leaf":
            n = 1
            for f, q in p["f"]:
                sub = field(val, f)
                pl = (place[0], place[1] + (f,)) if place else None
                n = b_and(n, self.bind(q, sub, pl, st, act))
            return n
        if k == "Const":
            return eq(val, self.lit(p))
        if k == "Or":
            n = 0
            outs = []
            base = st.copy()
            for q in p["ps"]:
                s = base.copy()
                m = self.bind(q, val, place, s, act)
                m = b_and(m, b_not(n))
                n = b_or(n, m)
                s.g = m
                outs.append(s)
            g = st.g
            pg = st.pg
            self.merge(st, outs)
            st.g = g
            st.pg = pg
            return n
        if k == "Range":
            lo = self.lit(p["lo"]) if isinstance(p.get("lo"), dict) else None
            hi = self.lit(p["hi"]) if isinstance(p.get("hi"), dict) else None
            n = 1
            if lo is not None:
                n = b_and(n, b_not(lt(val, lo)))
            if hi is not None:
                n = b_and(n, b_not(lt(hi, val)) if p.get("incl", True) else lt(val, hi))
            return n
        if k == "Slice":
            pre, suf = p.get("pre") or [], p.get("suf") or []
            ln = length(val)
            tot = I(len(pre) + len(suf))
            n = b_not(lt(ln, tot)) if p.get("mid") is not None else eq(ln, tot)
            for i, q in enumerate(pre):
                n = b_and(n, self.bind(q, index_at(val, I(i)), None, st, act))
            for i, q in enumerate(suf):
                n = b_and(n, self.bind(q, index_at(val, add(ln, I(len(suf) - i), -1)), None, st, act))
            if p.get("mid") is not None:
                n = b_and(n, self.bind(p["mid"], slice_(val, I(len(pre)), add(ln, I(len(suf)), -1)), None, st, act))
            return n
        raise Unsupported("pattern " + k)

    def lit(self, e):
        k, v = e.get("t"), e.get("v")
        if k == "bool":
            return B(1 if v else 0)
        if k == "int":
            return I(int(v))
        if k in ("str", "char"):
            return C(k, v)
        m = re.match(r"^Branch\(\[(.*)\]\): str$", str(v))
        if m:
            # a string constant of a pattern, as a list of its bytes
            by = re.findall(r"(\d+)_u8|Leaf\(0x([0-9a-f]+)\)", m.group(1))
            return C("str", bytes(int(x) if x else int(y, 16) for x, y in by).decode("utf8", "replace"))
        return C(k or "lit", str(v))

    # ------------------------------------------------------------ places
    def place(self, e, st, act):
        k = e["k"]
        if k == "Var":
            return (("L", act, e["v"]), ())
        if k == "Field":
            pl = self.place(e["x"], st, act)
            return (pl[0], pl[1] + (e["n"],))
        if k == "Deref":
            v = self.ev(e["x"], st, act)
            return self.ref_place(v, st, act)
        if k == "Index":
            pl = self.place(e["x"], st, act)
            i = self.ev(e["i"], st, act)
            return (pl[0], pl[1] + (("i", i),))
        # temporary
        v = self.ev(e, st, act)
        return self.tmp_place(v, st, act)

    def tmp_place(self, v, st, act):
        self.ntmp += 1
        root = ("L", act, "tmp%d" % self.ntmp)
        st.env[root] = v
        return (root, ())

    def ref_place(self, v, st, act):
        if v.op == "mref":
            return (v.a[0], v.a[1])
        if v.op == "choice":
            ms = [x for x, _ in alts(v) if x.op == "mref"]
            if len(ms) == 1:
                return (ms[0].a[0], ms[0].a[1])
        return (("H", v), ())

    def norm_place(self, st, pl):
        """follow references stored in the middle of a place"""
        root, path = pl
        v = st.env.get(root)
        n = 0
        while v is not None and v.op == "mref" and n < 20:
            root, path = v.a[0], v.a[1] + path
            v = st.env.get(root)
            n += 1
        return root, path

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, act):
        if st.g == 0:
            return mk("undef")
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            raise Unsupported(e["k"])
        return m(e, st, act)

    def val(self, e, st, act):
        return self.deref(st, self.ev(e, st, act))

    def cond(self, e, st, act):
        """boolean expression -> guard node (bindings go to st)"""
        if e["k"] == "LetC":
            return self.letc(e, st, act)
        if e["k"] == "Logic":
            l = self.cond(e["l"], st, act)
            if e["op"] == "And":
                s2 = st.copy(b_and(st.g, l))
                r = self.cond(e["r"], s2, act) if s2.g else 0
                self.after_cond(st, s2, b_not(l))
                return b_and(l, r)
            s2 = st.copy(b_and(st.g, b_not(l)))
            r = self.cond(e["r"], s2, act) if s2.g else 0
            self.after_cond(st, s2, l)
            return b_or(l, r)
        if e["k"] == "Un" and e["op"] == "Not":
            return b_not(self.cond(e["x"], st, act))
        v = self.val(e, st, act)
        return as_node(v)

    def after_cond(self, st, s2, other):
        """merge a conditionally evaluated sub-expression"""
        g = st.g
        s1 = st.copy(b_and(st.g, other))
        pg = s2.pg
        if s2.g == 0:
            # the right operand diverged or was unreachable
            st.g = b_or(s1.g, pg)
            return
        self.merge(st, [s1, s2])

    def letc(self, e, st, act):
        x = e["x"]
        v, pl = self.scrut(x, st, act)
        return self.bind(e["p"], v, pl, st, act)

    def scrut(self, x, st, act):
        k = x["k"]
        if k in ("Var", "Field", "Deref", "Index"):
            pl = self.place(x, st, act)
            return self.rd(st, pl[0], pl[1]), pl
        return self.ev(x, st, act), None

    def x_Var(self, e, st, act):
        return self.rd(st, ("L", act, e["v"]), ())

    def x_Field(self, e, st, act):
        v = self.ev(e["x"], st, act)
        v = self.deref(st, v)
        return field(v, e["n"])

    def x_Deref(self, e, st, act):
        v = self.ev(e["x"], st, act)
        if v.op == "mref":
            return self.rd(st, v.a[0], v.a[1])
        if v.op == "choice":
            return self.deref(st, v)
        h = st.env.get(("H", v))
        return h if h is not None else v

    def x_Index(self, e, st, act):
        return index_at(self.val(e["x"], st, act), self.val(e["i"], st, act))

    def x_Ref(self, e, st, act):
        if e["m"]:
            x = e["x"]
            if x["k"] == "Deref":
                # reborrow
                v = self.ev(x["x"], st, act)
                if v.op in ("mref", "choice"):
                    return v
            pl = self.place(x, st, act)
            return mk("mref", pl[0], pl[1])
        return self.ev(e["x"], st, act)

    x_RawRef = x_Ref

    def x_Lit(self, e, st, act):
        return self.lit(e)

    def x_Const(self, e, st, act):
        if e.get("val") is not None:
            v = e["val"]
            if isinstance(v, bool):
                return B(1 if v else 0)
            if isinstance(v, int):
                return I(v)
        if e.get("did") in self.p.by_did:
            b = self.p.by_did[e["did"]]
            if b["body"] is not None and b["did"] not in self.stack:
                return self.call_body(b, self.new_act(), [], st)
        return mk("const", e.get("p") or e.get("did"))

    def x_Static(self, e, st, act):
        return mk("static", e.get("p") or e.get("did") or "static")

    def x_Zst(self, e, st, act):
        return mk("zst", self.p.ty(e.get("ty")))

    def x_Unk(self, e, st, act):
        self.unknown.append((e.get("sp"), "unknown expression"))
        return mk("unk", e.get("sp"))

    def x_FnRef(self, e, st, act):
        f = mk("fn", e.get("rdid") or e["did"], e.get("full") or "")
        e = dict(e)
        e["k0"] = "FnRef"
        self.fnrefs.setdefault(f, e)
        return f

    def x_Closure(self, e, st, act):
        return mk("clos", e["id"], act)

    def x_Tuple(self, e, st, act):
        return mk("tup", *[self.ev(x, st, act) for x in self.kids(e)])

    def kids(self, e):
        return e.get("a") or e.get("xs") or e.get("f") or []

    def x_Array(self, e, st, act):
        return coll("vec", [piece((), 1, self.ev(x, st, act)) for x in self.kids(e)])

    def x_Repeat(self, e, st, act):
        return mk("repeat", self.ev(e["x"], st, act), C("n", str(e.get("n"))))

    def x_Adt(self, e, st, act):
        fs = e["f"]
        vals = {f: self.ev(x, st, act) for f, x in fs}
        names = None
        info = ADTS.get(e["adt"])
        if info:
            for v in info["v"]:
                if v["n"] == e["v"]:
                    names = [f["n"] for f in v["f"]]
        if names is None:
            names = [f for f, _ in fs]
        base = self.ev(e["base"], st, act) if e.get("base") else None
        out = []
        nn = []
        for n in names:
            if n in vals:
                out.append(vals[n])
                nn.append(n)
            elif base is not None:
                out.append(field(base, n))
                nn.append(n)
        if e["adt"].endswith("borrow::Cow"):
            return out[0]
        if e["adt"].endswith("RangeFull"):
            return V(e["adt"], e["v"])
        return V(e["adt"], e["v"], tuple(nn), *out)

    def x_Bin(self, e, st, act):
        a = self.val(e["l"], st, act)
        b = self.val(e["r"], st, act)
        return self.bin(e["op"], a, b)

    def bin(self, op, a, b):
        if op == "Eq":
            return B(eq(a, b))
        if op == "Ne":
            return B(b_not(eq(a, b)))
        if op == "Lt":
            return B(lt(a, b))
        if op == "Gt":
            return B(lt(b, a))
        if op == "Le":
            return B(b_not(lt(b, a)))
        if op == "Ge":
            return B(b_not(lt(a, b)))
        op = op.replace("Assign", "").replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("BitOr", "BitAnd", "BitXor") and (isbool(a) or isbool(b)):
            x, y = as_node(a), as_node(b)
            return B({"BitOr": b_or, "BitAnd": b_and}[op](x, y) if op != "BitXor" else b_not(b_xnor(x, y)))
        if op in ("Add", "Sub"):
            s = 1 if op == "Add" else -1
            return lift2(lambda x, y: add(x, y, s), a, b)
        return binop(op, a, b)

    def x_Logic(self, e, st, act):
        return B(self.cond(e, st, act))

    def x_LetC(self, e, st, act):
        return B(self.cond(e, st, act))

    def x_Un(self, e, st, act):
        v = self.val(e["x"], st, act)
        if e["op"] == "Not":
            if self.p.ty(e.get("ty")) == "bool":
                return B(b_not(as_node(v)))
            return mk("inot", v)
        if isint(v):
            return I(-v.a[1])
        return add(I(0), v, -1)

    def x_Cast(self, e, st, act):
        return self.ev(e["x"], st, act)

    def x_If(self, e, st, act):
        c = self.cond(e["c"], st, act)
        if st.g == 0:
            return mk("undef")
        s1 = st.copy(b_and(st.g, c))
        s2 = st.copy(b_and(st.g, b_not(c)))
        pg0 = st.pg
        v1 = self.ev(e["t"], s1, act) if s1.g else mk("undef")
        if e.get("e") is not None:
            v2 = self.ev(e["e"], s2, act) if s2.g else mk("undef")
        else:
            v2 = UNIT
        r = self.merge_vals([(v1, s1.g), (v2, s2.g)])
        self.merge(st, [s1, s2])
        st.pg = b_or(st.pg, pg0)
        return r

    def x_Match(self, e, st, act):
        src = e.get("src") or ""
        if src.startswith("ForLoop"):
            return self.for_loop(e, st, act)
        v, pl = self.scrut(e["x"], st, act)
        if st.g == 0:
            return mk("undef")
        rem = st.g
        outs, states = [], []
        pg0 = st.pg
        for arm in e["arms"]:
            if rem == 0:
                break
            s = st.copy(rem)
            n = self.bind(arm["p"], v, pl, s, act)
            s.g = b_and(rem, n)
            if s.g == 0:
                continue
            taken = s.g
            if arm.get("g") is not None:
                c = self.cond(arm["g"], s, act)
                taken = b_and(s.g, c)
                s.g = taken
                if s.g == 0:
                    continue
            rem = b_and(rem, b_not(taken))
            r = self.ev(arm["b"], s, act)
            outs.append((r, s.g))
            states.append(s)
        v = self.merge_vals(outs)
        self.merge(st, states)
        st.pg = b_or(st.pg, pg0)
        return v

    def x_Block(self, e, st, act):
        c = Ctl("block", e.get("id")) if e.get("tb") else None
        if c:
            self.ctl.append(c)
        v = UNIT
        for s in e["st"]:
            if st.g == 0:
                break
            if s["s"] == "E":
                self.ev(s["x"], st, act)
                continue
            if s.get("i") is None:
                continue
            init = s["i"]
            val, pl = self.scrut(init, st, act)
            if st.g == 0:
                break
            if pl is None and needs_place(s["p"]):
                pl = self.tmp_place(val, st, act)
            n = self.bind(s["p"], val, pl, st, act)
            if s.get("else") is not None:
                s2 = st.copy(b_and(st.g, b_not(n)))
                if s2.g:
                    self.ev(s["else"], s2, act)
                st.g = b_or(b_and(st.g, n), s2.pg)
        if st.g != 0:
            if e.get("x") is not None:
                v = self.ev(e["x"], st, act)
        else:
            v = mk("undef")
        if c:
            self.ctl.pop()
            if c.breaks:
                fin = st.copy()
                fin.pg = st.pg
                v = self.merge_vals([(x.val, x.st.g) for x in c.breaks] + [(v, fin.g)])
                st.pg = 0
                self.merge(st, [x.st for x in c.breaks] + [fin])
        return v

    def x_Assign(self, e, st, act):
        v = self.ev(e["r"], st, act)
        if st.g == 0:
            return UNIT
        pl = self.place(e["l"], st, act)
        self.assign(pl, v, st, e.get("sp"))
        return UNIT

    def assign(self, pl, v, st, sp=None):
        self.log("assign", "assign", [v], st, [pl], sp, UNIT)
        self.wr(st, pl[0], pl[1], v)

    def x_AssignOp(self, e, st, act):
        v = self.val(e["r"], st, act)
        pl = self.place(e["l"], st, act)
        old = self.rd(st, pl[0], pl[1])
        op = re.sub(r"Assign", "", e["op"])
        self.assign(pl, self.bin(op, self.deref(st, old), v), st, e.get("sp"))
        return UNIT

    def x_Return(self, e, st, act):
        v = self.ev(e["x"], st, act) if e.get("x") is not None else UNIT
        if st.g:
            for c in reversed(self.ctl):
                if c.kind == "fn":
                    c.breaks.append(Exit(self.snap(st), v))
                    break
        st.g = 0
        return mk("undef")

    def snap(self, st):
        s = St(st.g, dict(st.env))
        return s

    def x_Break(self, e, st, act):
        v = self.ev(e["x"], st, act) if e.get("x") is not None else UNIT
        if st.g:
            for c in reversed(self.ctl):
                if c.kind in ("loop", "block") and c.id == (act, e["lb"]) or c.kind == "block" and c.id == e["lb"]:
                    c.breaks.append(Exit(self.snap(st), v))
                    break
        st.g = 0
        return mk("undef")

    def x_Continue(self, e, st, act):
        if st.g:
            for c in reversed(self.ctl):
                if c.kind == "loop" and c.id == (act, e["lb"]):
                    c.conts.append(Exit(self.snap(st), UNIT))
                    break
        st.g = 0
        return mk("undef")

    # ------------------------------------------------------------ loops
    def changed(self, before, after):
        """roots of `before` whose value differs in `after`"""
        ch = []
        for k, v in after.items():
            b = before.get(k)
            if b is None:
                if k[0] == "H" and v is not k[1]:
                    ch.append(k)
                continue
            if v is not b:
                ch.append(k)
        return ch

    def phi_of(self, old, lid, root, path=()):
        if old.op == "V" and len(old.a) > 3 and len(variants(old.a[0]) or ()) == 1 and old.a[0] in ADTS:
            return V(old.a[0], old.a[1], old.a[2], *[self.phi_of(v, lid, root, path + (n,)) for n, v in zip(old.a[2], old.a[3:])])
        if old.op == "tup" and old.a:
            return mk("tup", *[self.phi_of(v, lid, root, path + (str(i),)) for i, v in enumerate(old.a)])
        if old.op == "mref":
            return old
        if old.op == "coll":
            return mk("phi", lid, root, path, old.a[0])
        return mk("phi", lid, root, path, "")

    def loop_body(self, st, lid, elems, node, run, ctlid):
        """evaluate one symbolic iteration until the set of changed roots is stable.
        returns (changed, start env, back state or None, ctl)"""
        changed = {}
        mark = len(self.events)
        act0, lid0, tmp0 = self.nact, self.nlid, self.ntmp
        for _ in range(12):
            del self.events[mark:]
            s = st.copy(node)
            for r in changed:
                old = st.env.get(r)
                if old is None:
                    old = r[1]
                s.env[r] = self.phi_of(old, lid, r)
            start = dict(s.env)
            c = Ctl("loop", ctlid)
            nctl = len(self.ctl)
            fnexits = self.fn_exits()
            outer_exits = [(cc, len(cc.breaks), len(cc.conts)) for cc in self.ctl]
            self.ctl.append(c)
            fr = Frame("while" if elems is None else "for", elems, node, st.g, lid)
            self.frames.append(fr)
            try:
                run(s)
            finally:
                self.frames.pop()
                self.ctl.pop()
            backs = [x.st for x in c.conts] + ([s] if (s.g or s.pg) else [])
            back = St(0, {})
            if backs:
                self.merge(back, backs)
            newly = []
            if back.g:
                for k in self.changed(start, back.env):
                    if k not in changed and (k in st.env or k[0] == "H"):
                        newly.append(k)
            if not newly:
                # exits to outer targets recorded during this pass
                outs = []
                for cc, nb, nc in outer_exits:
                    outs.append((cc, cc.breaks[nb:], cc.conts[nc:]))
                    del cc.breaks[nb:]
                    del cc.conts[nc:]
                return changed, start, back, c, outs, fr
            for cc, nb, nc in outer_exits:
                del cc.breaks[nb:]
                del cc.conts[nc:]
            for k in newly:
                changed[k] = True
        raise Unsupported("loop does not stabilise")

    def fn_exits(self):
        return None

    def x_Loop(self, e, st, act):
        lid = self.new_lid()
        changed, start, back, c, outs, fr = self.loop_body(
            st, lid, None, 1, lambda s: self.ev(e["b"], s, act), (act, e["id"]))
        rec = LoopRec(lid, e.get("sp"))
        rec.frames = tuple(self.frames)
        rec.outer = st.g
        for r in changed:
            old = st.env.get(r)
            rec.init[r] = old if old is not None else r[1]
            rec.phi[r] = start[r]
            rec.next[r] = back.env.get(r, start[r]) if back.g else start[r]
        rec.back = back.g
        self.loops[lid] = rec
        # exits
        g0 = st.g
        ntargets = [(c, [x for x in c.breaks], "break")] + [(cc, br, "outer") for cc, br, co in outs if br] + \
                   [(cc, co, "cont") for cc, br, co in outs if co]
        total = [x for _, xs, _ in ntargets for x in xs]
        if not total:
            st.g = 0
            return mk("undef")
        tot = b_or(*[x.st.g for x in total])
        # an exit happens under `restrict(guard, total)` evaluated in the last iteration
        vals = []
        states = []
        for cc, xs, kind in ntargets:
            for x in xs:
                cond_ = restrict(x.st.g, tot) if len(total) > 1 else 1
                x.st.g = b_and(g0, cond_)
                if kind == "break":
                    vals.append((x.val, x.st.g))
                    states.append(x.st)
                elif kind == "outer":
                    cc.breaks.append(x)
                else:
                    cc.conts.append(x)
        v = self.merge_vals(vals)
        self.merge(st, states)
        return v

    def new_lid(self):
        self.nlid += 1
        return self.nlid

    def for_loop(self, e, st, act):
        """Match(into_iter(x)) { iter => Loop { match next(&mut iter) { None => break, Some(p) => body } } }"""
        src = e["x"]
        it = self.ev(src["a"][0], st, act) if src["k"] == "Call" else self.ev(src, st, act)
        if st.g == 0:
            return mk("undef")
        it = self.iter_value(src, it, st)
        body_loop = e["arms"][0]["b"]
        lp, m = find_next_match(body_loop)
        if lp is None:
            raise Unsupported("for loop shape")
        some_arm = None
        for arm in m["arms"]:
            if arm["p"]["k"] == "Variant" and arm["p"]["v"] == "Some":
                some_arm = arm
        pat = some_arm["p"]["f"][0][1]
        mutref = it.op == "mref" or (it.op == "choice" and any(x.op == "mref" for x in it.a[1:]))
        base_ref = it if mutref else None

        def run_item(item_val, item_place, s):
            n = self.bind(pat, item_val, item_place, s, act)
            self.ev(some_arm["b"], s, act)
        self.iterate(it, st, act, run_item, (act, lp["id"]), sp=e.get("sp"))
        return UNIT

    def iter_value(self, callexpr, v, st):
        """value iterated by into_iter(x)"""
        if v.op == "mref":
            ty = self.p.types[callexpr["a"][0]["ty"]] if callexpr["k"] == "Call" else {}
            inner = self.deref(st, v)
            s = ty.get("s", "")
            if ty.get("refs") and ty.get("mut") and ("Vec<" in s or "&mut [" in s or "Option<" in s or "BTreeMap<" in s or "HashMap<" in s):
                return v
            # an iterator by reference: drained by the loop
            return inner
        return self.deref(st, v)

    def pieces(self, v, used=None):
        """[(elems, node, value)] enumerated by iterating v"""
        if v.op == "choice":
            out = []
            for x, g in alts(v):
                for es, n, w in self.pieces(x):
                    out.append((es, b_and(n, g), w))
            return out
        if v.op == "coll":
            out = []
            for p in v.a[1]:
                out.append((p.a[0], p.a[1], p.a[2]))
            return out
        if v.op == "V" and v.a[0] == OPT:
            return [((), 1, v.a[3])] if v.a[1] == "Some" else []
        if v.op == "range":
            lo, hi = v.a
            if isint(lo) and lo.a[1] == 0 and hi.op == "len":
                e = elem(hi.a[0])
                return [((e,), 1, mk("idx", e))]
            if isint(lo) and isint(hi) and 0 <= hi.a[1] - lo.a[1] <= 16:
                return [((), 1, I(i)) for i in range(lo.a[1], hi.a[1])]
            e = elem(v)
            return [((e,), 1, e)]
        if v.op == "idxd":       # enumerate
            src = v.a[0]
            out = []
            ps = self.pieces(src)
            if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == 1:
                es, n, w = ps[0]
                return [(es, n, mk("tup", mk("idx", es[0]), w))]
            e = elem(v)
            return [((e,), 1, e)]
        if v.op == "skip" and v.a[0].op == "idxd" and v.a[0].a[0].op in ("sym", "field", "call", "at", "proj"):
            e = elem(slice_(v.a[0].a[0], v.a[1], length(v.a[0].a[0])))      # x.iter().enumerate().skip(k): x[k..], counted from k
            return [((e,), 1, mk("tup", add(v.a[1], mk("idx", e)), e))]
        if v.op == "zip":
            a, b = v.a
            pa, pb = self.pieces(a), self.pieces(b)
            if all(not p[0] and p[1] == 1 for p in pa + pb):
                return [((), 1, mk("tup", x[2], y[2])) for x, y in zip(pa, pb)]
            e = elem(v)
            return [((e,), 1, mk("tup", field(e, "0"), field(e, "1")))]
        if v.op == "c" and v.a[0] == "undef":
            return []
        if v.op == "undef":
            return []
        e = elem(v)
        return [((e,), 1, e)]

    def fresh_gens(self, es, node, val, extra=()):
        """rename generators that are already open in an enclosing loop"""
        ren = {}
        out = []
        for e in es:
            src = subst(e.a[0], ren) if ren else e.a[0]
            k = e.a[1]
            ne = elem(src, k)
            while ne in self.open_elems or ne in out:
                k += 1
                ne = elem(src, k)
            if ne is not e:
                ren[e] = ne
            out.append(ne)
        if ren:
            node = subst_node(node, ren)
            val = subst(val, ren)
            extra = [subst(x, ren) for x in extra]
        return tuple(out), node, val

    def iterate(self, it, st, act, run_item, ctlid, sp=None):
        """run a for-loop over `it`; run_item(value, place, state) evaluates the body"""
        ref = None
        if it.op == "mref":
            ref = it
            v = self.deref(st, it)
        elif it.op == "choice" and any(x.op == "mref" for x in it.a[1:]):
            v = self.deref(st, it)
            ref = it
        else:
            v = it
        if ref is not None and ref.op == "mref":
            return self.iterate_mut(ref, v, st, act, run_item, ctlid, sp)
        if ref is not None:
            # optional reference (Option<&mut T> iterated) -- treat each alternative
            for x, g in alts(ref):
                pass
        for es, n, w in self.pieces(v):
            if st.g == 0:
                break
            es, n, w = self.fresh_gens(es, n, w)
            self.one_for(es, n, w, None, st, act, run_item, ctlid, sp)

    def iterate_mut(self, ref, v, st, act, run_item, ctlid, sp):
        ps = self.pieces(v)
        new = []
        for es, n, w in ps:
            es, n, w = self.fresh_gens(es, n, w)
            root = ("L", act, "item%d" % self.new_lid())
            final = {}

            def run2(val, place, s, root=root, final=final):
                s.env[root] = val
                run_item(mk("mref", root, ()), (root, ()), s)
                final["v"] = None

            fin = self.one_for(es, n, w, root, st, act, run2, ctlid, sp)
            nv = fin if fin is not None else w
            new.append(piece(es, n, nv))
        kind = v.a[0] if v.op == "coll" else "vec"
        if len(new) == 1 and len(new[0].a[0]) == 1 and new[0].a[2] is new[0].a[0][0] and new[0].a[1] == 1:
            nv = v
        else:
            nv = coll(kind, new)
        self.write_ref(st, ref, nv)

    def one_for(self, es, n, w, item_root, st, act, run_item, ctlid, sp):
        lid = self.new_lid()
        self.open_elems.extend(es)
        try:
            changed, start, back, c, outs, fr = self.loop_body(
                st, lid, es, n, lambda s: run_item(w, None, s), ctlid)
        finally:
            if es:
                del self.open_elems[-len(es):]
        g0 = st.g
        env0 = st.env
        brk = [x for x in c.breaks]
        ext = [(cc, br, "b") for cc, br, co in outs if br] + [(cc, co, "c") for cc, br, co in outs if co]
        all_exits = brk + [x for _, xs, _ in ext for x in xs]
        E = b_or(*[x.st.g for x in all_exits]) if all_exits else 0
        item_final = None
        if item_root is not None and back.g:
            item_final = back.env.get(item_root)
            # exits leave the item as it was at the exit
            if all_exits:
                pairs = [(back.env.get(item_root), back.g)] + [(x.st.env.get(item_root, w), x.st.g) for x in all_exits]
                item_final = choice_care_ord([(a if a is not None else w, b) for a, b in pairs])
        elif item_root is not None and all_exits:
            item_final = choice_care_ord([(x.st.env.get(item_root, w), x.st.g) for x in all_exits])
        # normal completion
        env = dict(env0)
        vals = {}
        for r in changed:
            old = env0.get(r)
            if old is None:
                old = r[1]
            new = back.env.get(r, start[r]) if back.g else start[r]
            vals[r] = (old, start[r], new)
        rec = self.fors[lid] = LoopRec(lid, sp)
        rec.frames, rec.outer, rec.elems, rec.exit = tuple(self.frames), g0, es, E
        for r, (old, phi, new) in vals.items():
            rec.init[r], rec.phi[r], rec.next[r] = old, phi, new
        rec.back = back.g
        for r, (old, phi, new) in vals.items():
            env[r] = self.solve(old, phi, new, es, n, back.g, lid, E)
        norm = St(b_and(g0, b_not(exists(es, E))) if E else g0, env)
        states = []
        if all_exits:
            first = {}
            if es:
                first = {e: pick("fst", es, E, e) for e in es}
            single = len(all_exits) == 1
            ex_any = exists(es, E)

            def finish(x):
                s = x.st
                cond_ = ex_any if single else b_and(ex_any, subst_node(restrict(s.g, E), first) if es else restrict(s.g, E))
                env2 = {}
                mem = {}
                for k, v in s.env.items():
                    b = env0.get(k)
                    if v is b:
                        env2[k] = v
                        continue
                    if k in changed or b is not None or k[0] == "H":
                        # substitute the first exiting element; phi stays as the value at that iteration
                        v2 = subst(v, first, mem) if es else v
                        if k in changed:
                            old, phi, new = vals[k]
                            v2 = self.at_exit(v2, phi, old, es, n, E, lid, new, back.g)
                        env2[k] = v2
                    else:
                        env2[k] = subst(v, first, mem) if es else v
                val = subst(x.val, first, mem) if es else x.val
                out = Exit(St(b_and(g0, cond_), env2), val)
                return out
            states = [finish(x).st for x in brk]
            for cc, xs, kd in ext:
                for x in xs:
                    y = finish(x)
                    (cc.breaks if kd == "b" else cc.conts).append(y)
        self.merge(st, [norm] + states)
        return item_final

    def at_exit(self, v, phi, old, es, n, E, lid, new, backg):
        """value of a changed root at the exiting iteration"""
        if phi.op == "phi":
            if mentions(v, frozenset([phi])):
                # accumulated by the iterations before the exit
                acc = self.solve(old, phi, new, es, b_and(n, atom(mk("before", es, E))), backg, lid, 0)
                return subst(v, {phi: acc})
            return v
        if phi.op in ("V", "tup") and new.op == phi.op and old.op == phi.op and len(new.a) == len(phi.a) == len(old.a):
            for o, p_, q in zip(old.a, phi.a, new.a):
                if isinstance(p_, T) and p_.op == "phi" and mentions(v, frozenset([p_])):
                    v = self.at_exit(v, p_, o, es, n, E, lid, q, backg)
        return v

    def solve(self, old, phi, new, es, n, backg, lid, E):
        """closed form of `new` = f(phi, elems) after all iterations"""
        if new is phi:
            return old
        if phi.op == "V" and new.op == "V" and phi.a[1] == new.a[1] and old.op == "V":
            return V(phi.a[0], phi.a[1], phi.a[2], *[self.solve(o, p_, q, es, n, backg, lid, E)
                                                    for o, p_, q in zip(old.a[3:], phi.a[3:], new.a[3:])])
        if phi.op == "tup" and new.op == "tup" and old.op == "tup":
            return mk("tup", *[self.solve(o, p_, q, es, n, backg, lid, E) for o, p_, q in zip(old.a, phi.a, new.a)])
        n0 = n
        if E and es:
            n = b_and(n, atom(mk("before", es, E)))
        ps = frozenset([phi])
        if not es:
            # executed (at most) once
            return subst(new, {phi: old}) if n == 1 else ite(n, subst(new, {phi: old}), old)
        care = backg
        if phi.op == "phi":
            # collection growth
            if new.op == "coll" and new.a[1] and is_ident_piece(new.a[1][0], phi):
                add_ = []
                okk = True
                for p_ in new.a[1][1:]:
                    pn, pv = p_.a[1], p_.a[2]
                    if new.a[0] in ("set",):
                        # inserting only what is absent is inserting
                        pn = drop_absent(pn, phi, pv)
                    q = piece(es + p_.a[0], b_and(n, pn), pv)
                    if mentions(q, ps):
                        okk = False
                    add_.append(q)
                if okk:
                    if old.op == "coll":
                        return coll(old.a[0] if old.a[0] != "vec" or new.a[0] == "vec" else new.a[0], list(old.a[1]) + add_)
                    return coll(new.a[0], [ident_piece(old)] + add_)
            r = self.solve_map(old, phi, new, es, n, ps)
            if r is not None:
                return r
            r = self.solve_fields(old, phi, new, es, n0, backg, lid, E)
            if r is not None:
                return r
            isb = isbool(new) or (new.op == "choice" and all(isbool(x) for x in new.a[1:]))
            if isb and not any(mentions(a_, ps) and a_ is not phi for a_ in atoms_in(as_node(new))):
                f = as_node(new)
                v = next((v for v in support(f) if atom_of(v) is phi), None)
                if v is None:
                    hit = b_and(n, backg)
                    last = {e: pick("lst", es, hit, e) for e in es}
                    if f in (0, 1):
                        return ite(exists(es, hit), B(f), old)
                    return ite(exists(es, hit), B(subst_node(f, last)), old)
                pos, neg = cofactor(f, v, 1), cofactor(f, v, 0)
                if pos == 1:
                    return B(b_or(as_node(old), exists(es, b_and(n, neg))))
                if neg == 0:
                    return B(b_and(as_node(old), b_not(exists(es, b_and(n, b_not(pos))))))
            # counters
            d = [(x, g) for x, g in alts(new)]
            if all((x is phi) or (x.op == "lin" and is_inc(x, phi)) for x, g in d) and \
                    not any(node_mentions(g, ps) for _, g in d):
                r = old
                for x, g in d:
                    if x is phi:
                        continue
                    k = lin_parts(x)[0]
                    rest = {q: c for q, c in lin_parts(x)[1].items() if q is not phi}
                    inc = b_and(n, g)
                    if rest:
                        r = add(r, mk("sum", es, inc, mk_lin(k, rest)))
                    else:
                        c = mk("count", es, inc)
                        for _ in range(abs(k)):
                            r = add(r, c, 1 if k > 0 else -1)
                return r
            # last assignment / first assignment
            keep = b_or(*[g for x, g in d if x is phi])
            setv = [(x, g) for x, g in d if x is not phi]
            if setv and not any(mentions(x, ps) for x, _ in setv):
                hit = b_or(*[g for _, g in setv])
                val = choice_care_ord(setv)
                if not node_mentions(hit, ps) and not mentions(val, ps):
                    hit = b_and(n, hit)
                    last = {e: pick("lst", es, hit, e) for e in es}
                    return ite(exists(es, hit), subst(val, last), old)
                isn = is_node(phi, OPT, "None")
                if implies(hit, isn) and old is NONE and val.op == "V" and val.a[1] == "Some":
                    h2 = b_and(n, restrict(hit, isn))
                    if not node_mentions(h2, ps) and not mentions(val, ps):
                        fst = {e: pick("fst", es, h2, e) for e in es}
                        return ite(exists(es, h2), subst(val, fst), old)
        return mk("fold", es, n, lid, phi, new, old)

    def solve_fields(self, old, phi, new, es, n, backg, lid, E):
        """a record that is only changed in some of its fields: each field on its own"""
        parts = []
        for x, g in alts(new):
            ch, b = {}, x
            while b.op == "with" and isinstance(b.a[1], str):
                ch.setdefault(b.a[1], b.a[2])
                b = b.a[0]
            if b is not phi:
                return None
            parts.append((ch, g))
        fs = sorted({f for ch, _ in parts for f in ch})
        if not fs:
            return None
        sub = {field(phi, f): mk("phi", lid, phi.a[1], phi.a[2] + (f,), "") for f in fs}

        def other(x):
            r = subst(x, sub)
            return subst(r, {phi: old}) if only_fields(r, phi) else None

        res = old
        for f in fs:
            ph = sub[field(phi, f)]
            vs = [(other(ch.get(f, field(phi, f))), other(B(g)) if g > 1 else B(g)) for ch, g in parts]
            if any(v is None or g is None for v, g in vs):
                return None
            nv = choice_care_ord([(v, as_node(g)) for v, g in vs]) if len(vs) > 1 else vs[0][0]
            v = self.solve(field(old, f), ph, nv, es, n, backg, lid, E)
            if any(mentions(v, frozenset([p_])) for p_ in sub.values() if p_ is not ph or v.op != "fold"):
                return None
            res = set_comp(res, f, v)
        return res

    def solve_map(self, old, phi, new, es, n, ps):
        """entries put into a map (or a map in a field) by every iteration"""
        path, put, hit = None, None, 0
        for x, g in alts(new):
            if x is phi:
                continue
            p, b, y = [], phi, x
            while y.op == "with":
                p.append(y.a[1])
                if y.a[0] is not b:
                    return None
                b = field(b, y.a[1])
                y = y.a[2]
            if y.op != "put" or y.a[0] is not b or put is not None and (put is not y or path != p):
                return None
            path, put = p, y
            hit = b_or(hit, g)
        if put is None:
            return None
        m, k, v = put.a
        if mentions(k, ps):
            return None
        op, pieces = None, []
        for k1, g1 in (alts(k) if k.op == "choice" else [(k, 1)]):
            if node_mentions(g1, ps):
                return None
            v1 = v if g1 == 1 else given(v, g1)
            has = is_node(map_get(m, k1), OPT, "Some")
            if has <= 1 or has not in [atom(a) for a in atoms_in(has)]:
                return None
            var = next(iter(support(has)))
            hit1 = b_and(hit, g1)
            # `or_insert`: keeps the value that is there
            if v1.op == "choice":
                cur = proj(map_get(m, k1), OPT, "Some", "0")
                rest = [(x, g) for x, g in alts(v1) if x is not cur]
                if len(rest) == 1 and rest[0][1] == b_not(has):
                    v1 = rest[0][0]
                    hit1 = b_and(hit1, b_not(has))
            if mentions(v1, ps):
                return None
            absent = cofactor(hit1, var, 0)
            if node_mentions(absent, ps):
                return None
            kept = cofactor(hit1, var, 1)
            op1 = "mapadd" if kept == 0 else "mapext" if kept == absent else None
            if op1 is None or op is not None and op != op1:
                return None
            op = op1
            pieces.append(piece(es, b_and(n, absent), mk("tup", k1, v1)))
        o = old
        for f in path:
            o = field(o, f)
        r = map_grow(op, o, pieces)
        for i in reversed(range(len(path))):
            b = old
            for f in path[:i]:
                b = field(b, f)
            r = set_comp(b, path[i], r)
        return r

    # ------------------------------------------------------------ events
    def log(self, name, did, args, st, places, sp, res, node=None, kind="call"):
        ev = Ev()
        ev.name, ev.did, ev.args, ev.places = name, did, list(args), places
        ev.g, ev.frames, ev.res, ev.sp = st.g, tuple(self.frames), res, sp
        ev.fn = tuple(self.stack)
        ev.node = node
        ev.kind = kind
        ev.targs = (node or {}).get("targs")
        ev.seq = len(self.events)
        self.events.append(ev)
        return ev

    def opaque_call(self, name, did, args, st, sp, node=None, pure=False):
        vals = [self.deref(st, a) for a in args]
        places = [self.norm_place(st, (a.a[0], a.a[1])) if a.op == "mref" else None for a in args]
        res = mk("call", name, *vals)
        self.log(name, did, vals, st, places, sp, res, node)
        for i, a in enumerate(args):
            if a.op == "mref":
                self.write_ref(st, a, mk("eff", name, i, *vals))
        return res

    def panic(self, st, what, sp):
        self.log("panic", what, [], st, [], sp, None, kind="panic")
        st.pg = b_or(st.pg, st.g)
        st.g = 0
        return mk("undef")

    def x_CallV(self, e, st, act):
        f = self.ev(e["f"], st, act)
        args = [self.ev(a, st, act) for a in e["a"]]
        if st.g == 0:
            return mk("undef")
        return self.call_fn_value(f, args, st, e.get("sp"), e.get("ty"))

    def x_Call(self, e, st, act):
        if e.get("ctor"):
            args = [self.ev(a, st, act) for a in e["a"]]
            return self.mk_ctor(e, args)
        args = []
        for a in e["a"]:
            args.append(self.ev(a, st, act))
            if st.g == 0:
                return mk("undef")
        return self.call(e, args, st, act)

    def call(self, e, args, st, act):
        from . import stdlib
        return stdlib.call(self, e, args, st, act)


def choice_care_ord(pairs):
    """like choice_care, first listed value tested first (deterministic by id inside)"""
    return choice_care(pairs, None)


def isbool(v):
    return v.op == "b"


def only_fields(x, phi):
    """is a record only used through its fields in a term"""
    from .lib import walk
    bad = []

    def child(y):
        return y is phi or isinstance(y, tuple) and any(child(z) for z in y)

    def f(y):
        if not (y.op == "field" and y.a[0] is phi) and any(child(z) for z in y.a):
            bad.append(y)
    walk(x, f)
    return x is not phi and not bad


def is_inc(x, phi):
    c, d = lin_parts(x)
    return d.get(phi) == 1


def drop_absent(n, phi, val):
    """remove the conjunct `val not in phi` from the guard of a set insertion"""
    c = contains(phi, val)
    sup = support(c)
    if len(sup) == 1 and c == atom(atom_of(next(iter(sup)))):
        v = next(iter(sup))
        if cofactor(n, v, 1) == 0:
            return cofactor(n, v, 0)
    return n


def needs_place(p):
    if not isinstance(p, dict):
        return False
    if p.get("k") == "Bind":
        return p.get("by") == "mut" or (p.get("sub") and needs_place(p["sub"]))
    for v in p.values():
        if isinstance(v, dict) and needs_place(v):
            return True
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and needs_place(x):
                    return True
                if isinstance(x, list) and any(isinstance(y, dict) and needs_place(y) for y in x):
                    return True
    return False


def find_next_match(e):
    """locate Loop and the `match next(&mut iter)` inside a desugared for"""
    lp = None
    x = e
    for _ in range(12):
        if x["k"] == "Loop":
            lp = x
            x = x["b"]
        elif x["k"] == "Block":
            if x["st"]:
                s = x["st"][0]
                x = s["x"] if s["s"] == "E" else s["i"]
            else:
                x = x["x"]
        elif x["k"] == "Match" and lp is not None:
            return lp, x
        else:
            return None, None
    return None, None
