"""Texts described by a grammar: a text is a row of literal characters and opaque words of unknown length, and a term over it is
evaluated to the part of it (or the position in it) that it denotes for every text of that form"""
from . import terms as t
from .terms import OPT, RES


class Unclear(Exception):
    """not determined by the form of the text"""


class Misplaced(Unclear):
    """a position that is inside of a word, or outside of the text, whatever the words are"""


class Undef(Unclear):
    """a part that does not exist (payload of a None)"""


class Word:
    """a non-empty word; `has` are the characters it may contain besides letters and digits (None: any)"""

    def __init__(self, name, has="", first=None, digits=False, len_=None):
        self.name, self.has, self.first, self.digits, self.len = name, has, first, digits, len_

    def parts(self, lo, front):
        """the word cut after `lo` characters (counted from its front or back); for words that are long enough"""
        n = tok_len(self)
        a, b = (Lin(lo), n - Lin(lo)) if front else (n - Lin(lo), Lin(lo))
        k = "%d" % lo if front else "-%d" % lo
        return (Word("%s[..%s]" % (self.name, k), self.has, digits=self.digits, len_=a),
                Word("%s[%s..]" % (self.name, k), self.has, digits=self.digits, len_=b))

    def __repr__(self):
        return "<%s>" % self.name

    def may(self, pred):
        """None if some of its characters may satisfy the predicate, False if none can"""
        if self.has is None:
            return None
        for c in self.has:
            if pred(c) is not False:
                return None
        for c in "0123456789" if self.digits else "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
            if pred(c) is not False:
                return None
        return False


class Lin:
    """a number: constant plus lengths of words"""
    __slots__ = ("c", "d")

    def __init__(self, c=0, d=()):
        self.c, self.d = c, {k: v for k, v in dict(d).items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(self.c + o.c, d)

    def scale(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.d == o.d

    def __hash__(self):
        return hash((self.c, frozenset(self.d.items())))

    def sign(self):
        """-1, 0, 1 if known for every length (words are not empty)"""
        if not self.d:
            return (self.c > 0) - (self.c < 0)
        if all(v > 0 for v in self.d.values()):
            m = self.c + sum(self.d.values())
            return 1 if m > 0 else None
        if all(v < 0 for v in self.d.values()):
            m = self.c + sum(self.d.values())
            return -1 if m < 0 else None
        return None

    def nonneg(self):
        return all(v > 0 for v in self.d.values()) and self.c + sum(self.d.values()) >= 0

    def __repr__(self):
        return "+".join(["%d" % self.c] + ["%s|%s|" % ("" if v == 1 else v, k.name) for k, v in self.d.items()])


def tok_len(x):
    return Lin(len(x.encode())) if isinstance(x, str) else x.len if x.len is not None else Lin(0, {x: 1})


def text(*parts):
    """tuple of tokens: strings are split into their characters"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Word):
            out.append(p)
        else:
            out.extend(p)
    return tuple(out)


def size(s):
    n = Lin()
    for x in s:
        n = n + tok_len(x)
    return n


def show(s):
    return "".join(x if isinstance(x, str) else "<%s>" % x.name for x in s)


def open_at(s, at):
    """the text with a token boundary at a position, and the number of tokens before it"""
    pos = Lin()
    for k in range(len(s) + 1):
        if pos == at:
            return s, k
        if k == len(s):
            break
        nxt = pos + tok_len(s[k])
        if isinstance(s[k], Word):
            for d, front in ((at - pos, True), (nxt - at, False)):
                if not d.d and 0 < d.c < LONG and (s[k].len is None or s[k].len.d):
                    a, b = s[k].parts(d.c, front)
                    return s[:k] + (a, b) + s[k + 1:], k + 1
        pos = nxt
    raise Misplaced("position %r of %s" % (at, show(s)))


LONG = 16       # words are taken to be longer than this where they are cut


def cut(s, lo, hi):
    """part between two positions"""
    s, j = open_at(s, hi)
    s, i = open_at(s[:j], lo)
    return s[i:]


class Pat:
    """what a search looks for"""

    def __init__(self, s=None, pred=None):
        self.s, self.pred = s, pred

    def at(self, s, k):
        """does it match at token k: (True, tokens used) / False / None"""
        if self.pred is not None:
            if k >= len(s):
                return False
            x = s[k]
            return self.pred(x) if isinstance(x, str) else x.may(self.pred)
        for n, c in enumerate(self.s):
            if k + n >= len(s):
                return False
            x = s[k + n]
            if isinstance(x, str):
                if x != c:
                    return False
            elif x.may(lambda y: y == c) is False:
                return False
            else:
                return None
        return True


class Eval:
    def __init__(self, env, atoms=None):
        self.env = env              # term -> value
        self.atoms = atoms          # hook for atoms: f(atom, self) -> True / False / None
        self.memo = {}
        self.nmemo = {}

    # -- conditions
    def node(self, n):
        if n in (0, 1):
            return bool(n)
        if n in self.nmemo:
            r = self.nmemo[n]
            if isinstance(r, Exception):
                raise r
            return r
        v, lo, hi = t.node_parts(n)
        try:
            try:
                b = self.atom(t._atoms[v])
            except Unclear as e:
                x, y = self.node(lo), self.node(hi)
                if x != y:
                    raise e
                r = x
            else:
                r = self.node(hi if b else lo)
        except Unclear as e:
            self.nmemo[n] = e
            raise
        self.nmemo[n] = r
        return r

    def atom(self, a):
        if self.atoms is not None:
            r = self.atoms(a, self)
            if r is not None:
                return r
        op = a.op
        if op == "is":
            v = self.val(a.a[0])
            if isinstance(v, tuple) and v and v[0] == "V":
                return v[1] == a.a[2]
        elif op == "eq":
            return self.equal(self.val(a.a[0]), self.val(a.a[1]))
        elif op == "lt":
            s = (self.val(a.a[0]) - self.val(a.a[1])).sign()
            if s is not None:
                return s < 0
        elif op == "gt":
            d = self.val(a.a[0]) - Lin(a.a[1])
            s = d.sign()
            if s is not None:
                return s > 0
            if (d.scale(-1)).nonneg():
                return False
        elif op == "call" and a.a[0] in ("starts_with", "ends_with"):
            s, p = self.val(a.a[1]), self.pat(a.a[2])
            if a.a[0] == "starts_with":
                r = p.at(s, 0)
            else:
                r = p.at(s, len(s) - (len(p.s) if p.s is not None else 1)) if len(s) >= (len(p.s) if p.s is not None else 1) else False
            if r is not None:
                return r
        elif op == "call" and a.a[0] in CHARS:
            x = self.val(a.a[1])
            if x[0] == "char":
                r = CHARS[a.a[0]](x[1]) if isinstance(x[1], str) else x[1].may(CHARS[a.a[0]])
                if isinstance(x[1], Word) and r is None and x[1].first:
                    r = CHARS[a.a[0]](x[1].first)
                if r is not None:
                    return r
        elif op == "nonempty":
            v = self.val(a.a[0])
            if isinstance(v, tuple) and v and v[0] != "V" or v == ():
                return len(v) > 0
        elif op == "exists":
            r = self.exists(a)
            if r is not None:
                return r
        raise Unclear("condition %s" % t.show_node(t.atom(a)))

    def exists(self, a):
        """a character of a text"""
        es = a.a[0]
        if len(es) != 1:
            return None
        src = es[0].a[0]
        if src.op != "call" or src.a[0] not in ("chars", "bytes"):
            return None
        res = False
        for x in self.val(src.a[1]):
            sub = dict(self.env)
            if isinstance(x, str):
                sub[es[0]] = ("char", x)
                if Eval(sub, self.atoms).node(a.a[1]):
                    return True
            else:
                r = x.may(lambda c: Eval({**sub, es[0]: ("char", c)}, self.atoms).node(a.a[1]))
                if r is None:
                    res = None
        return res

    def equal(self, x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            s = (x - y).sign()
            if s is None:
                raise Unclear("%r == %r" % (x, y))
            return s == 0
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x == y:
                return True
            if x[:1] == ("char",) and y[:1] == ("char",):
                if all(isinstance(z[1], str) for z in (x, y)):
                    return x[1] == y[1]
            elif x[:1] == ("V",) and y[:1] == ("V",):
                if x[1] != y[1]:
                    return False
                return all(self.equal(p[1], q[1]) for p, q in zip(x[2], y[2]))
            elif not (x and x[0] in ("char", "V", "tup", "list")) and not (y and y[0] in ("char", "V", "tup", "list")):
                return same_text(x, y)
        raise Unclear("%r == %r" % (x, y))

    def pat(self, p):
        if p.op == "c" and p.a[0] in ("str", "char"):
            return Pat(s=p.a[1])
        if p.op == "pred":
            c = t.mk("sym", "$c")
            return Pat(pred=lambda ch: Eval({**self.env, c: ("char", ch)}, self.atoms).node(t.as_node(p.a[0])))
        v = self.val(p)
        if isinstance(v, tuple) and all(isinstance(x, str) for x in v) and v[:1] != ("char",):
            return Pat(s="".join(v))
        if v[:1] == ("char",) and isinstance(v[1], str):
            return Pat(s=v[1])
        raise Unclear("pattern %s" % t.show(p, 3))

    # -- values
    def val(self, x):
        if x in self.env:
            return self.env[x]
        if x in self.memo:
            return self.memo[x]
        r = self.compute(x)
        self.memo[x] = r
        return r

    def compute(self, x):
        op = x.op
        if op == "c":
            if x.a[0] == "int":
                return Lin(x.a[1])
            if x.a[0] == "str":
                return tuple(x.a[1])
            if x.a[0] == "char":
                return ("char", x.a[1])
        elif op == "choice":
            for v, n in t.alts(x):
                if self.node(n):
                    return self.val(v)
            raise Undef("no alternative of %s" % t.show(x, 3))
        elif op == "lin":
            n = Lin(x.a[0])
            for c, y in zip(x.a[1], x.a[2:]):
                n = n + self.num(y).scale(c)
            return n
        elif op == "len":
            v = self.val(x.a[0])
            return Lin(len(v[1])) if v[:1] == ("list",) else size(v)
        elif op == "slice":
            return cut(self.val(x.a[0]), self.num(x.a[1]), self.num(x.a[2]))
        elif op == "fmt":
            out = ()
            for y in x.a:
                v = self.val(y)
                if v[:1] == ("char",):
                    v = (v[1],)
                elif v and v[0] in ("V", "tup", "list"):
                    raise Unclear("format of %s" % t.show(y, 3))
                out += v
            return out
        elif op == "strins" and len(x.a) == 3:
            v, c = self.val(x.a[0]), self.val(x.a[2])
            v, i = open_at(v, self.num(x.a[1]))
            return v[:i] + ((c[1],) if c[:1] == ("char",) else c) + v[i:]
        elif op == "V":
            return ("V", x.a[1], tuple((n, self.val(y)) for n, y in zip(x.a[2], x.a[3:])))
        elif op == "tup":
            return ("tup",) + tuple(self.val(y) for y in x.a)
        elif op == "proj":
            v = self.val(x.a[0])
            if v[:1] == ("V",):
                if v[1] != x.a[1]:
                    raise Undef(t.show(x, 3))
                for n, y in v[2]:
                    if n == x.a[2]:
                        return y
        elif op == "field":
            v = self.val(x.a[0])
            if v[:1] == ("tup",) and str(x.a[1]).isdigit():
                return v[1 + int(x.a[1])]
            if v[:1] == ("V",):
                for n, y in v[2]:
                    if n == x.a[1]:
                        return y
        elif op == "b":
            return self.node(x.a[0])
        elif op == "coll":
            out = []
            for p in x.a[1]:
                if p.op != "piece" or p.a[0]:
                    raise Unclear("list %s" % t.show(x, 3))
                if self.node(p.a[1]):
                    out.append(self.val(p.a[2]))
            return ("list", tuple(out))
        elif op == "at":
            v, i = self.val(x.a[0]), self.val(x.a[1])
            if v[:1] == ("list",) and isinstance(i, Lin) and not i.d and 0 <= i.c < len(v[1]):
                return v[1][i.c]
        elif op == "fst" and len(x.a[0:]) >= 3:
            return self.first(x)
        elif op == "call":
            return self.call(x)
        elif op in ("split", "splitn"):
            return self.call(t.mk("call", op, *x.a))
        raise Unclear("value %s" % t.show(x, 3))

    def num(self, x):
        v = self.val(x)
        if not isinstance(v, Lin):
            raise Unclear("number %s" % t.show(x, 3))
        return v

    def first(self, x):
        raise Unclear("value %s" % t.show(x, 3))

    def call(self, x):
        name = x.a[0]
        if name in ("find", "rfind") and len(x.a) == 3:
            s, p = self.val(x.a[1]), self.pat(x.a[2])
            ks = range(len(s))
            for k in ks if name == "find" else reversed(ks):
                m = p.at(s, k)
                if m is None:
                    raise Unclear("%s in %s" % (t.show(x.a[2], 3), show(s)))
                if m:
                    return ("V", "Some", (("0", size(s[:k])),))
            return ("V", "None", ())
        if name in TRIMS and len(x.a) in (2, 3):
            p = self.pat(x.a[2]) if len(x.a) == 3 else Pat(pred=str.isspace)
            if p.s is not None and len(p.s) != 1:
                raise Unclear("call of %s" % name)
            s = self.val(x.a[1])
            lo, hi = 0, len(s)
            while "s" in TRIMS[name] and lo < hi:
                m = p.at(s, lo)
                if m is None:
                    raise Unclear("%s of %s" % (name, show(s)))
                if not m:
                    break
                lo += 1
            while "e" in TRIMS[name] and lo < hi:
                m = p.at(s, hi - 1)
                if m is None:
                    raise Unclear("%s of %s" % (name, show(s)))
                if not m:
                    break
                hi -= 1
            return s[lo:hi]
        if name in ("split", "splitn") and len(x.a) == (3 if name == "split" else 4):
            s, p = self.val(x.a[1]), self.pat(x.a[-1])
            most = None if name == "split" else self.num(x.a[2])
            if p.s is not None and not p.s or most is not None and (most.d or most.c < 1):
                raise Unclear("call of %s" % name)
            out, k = [], 0
            cur = ()
            while k < len(s):
                m = p.at(s, k) if most is None or len(out) + 1 < most.c else False
                if m is None:
                    raise Unclear("%s in %s" % (t.show(x.a[-1], 3), show(s)))
                if m:
                    out.append(cur)
                    cur = ()
                    k += 1 if p.pred is not None else len(p.s)
                else:
                    cur += (s[k],)
                    k += 1
            return ("list", tuple(out) + (cur,))
        if name in ("from", "into", "to_string", "to_owned") and len(x.a) == 2:
            return self.val(x.a[1])
        raise Unclear("call of %s" % name)


def same_text(x, y):
    if x == y:
        return True
    # texts that differ in a literal character at the same literal offset, or in which one is a proper part of the other
    for a, b in ((x, y), (tuple(reversed(x)), tuple(reversed(y)))):
        for p, q in zip(a, b):
            if isinstance(p, str) and isinstance(q, str):
                if p != q:
                    return False
            elif p is not q:
                u, w = (p, q) if isinstance(p, str) else (q, p)
                if isinstance(u, str) and isinstance(w, Word) and w.may(lambda c: c == u) is False:
                    return False
                break
        else:
            if len(a) != len(b):
                return False
    d = size(x) - size(y)
    if d.sign() in (1, -1):
        return False
    raise Unclear("%s == %s" % (show(x), show(y)))


CHARS = {
    "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum, "is_numeric": str.isnumeric,
    "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
    "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_ascii": str.isascii, "is_whitespace": str.isspace,
    "is_ascii_whitespace": lambda c: c in " \t\n\r\f", "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
}

TRIMS = {"trim": "se", "trim_start": "s", "trim_end": "e", "trim_matches": "se", "trim_start_matches": "s", "trim_end_matches": "e"}
