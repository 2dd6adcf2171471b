"""Package ids are split into name, version and source (C22)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from ..gram import Word, Lin, Eval, Unclear, Undef, Misplaced, text, size, cut, show as show_text

W = Word
ESC = [c for c in (chr(i) for i in range(32, 127)) if not c.isalnum()]


def nm(k):
    return W("n%d" % k), "-", W("m%d" % k), "_", W("o%d" % k)


VERS = {
    "plain": (W("1", digits=True), ".", W("2", digits=True), ".", W("3", digits=True)),
    "pre": (W("4", digits=True), ".", W("5", digits=True), ".", W("6", digits=True), "-", W("rc"), ".", W("7", digits=True)),
    "build": (W("8", digits=True), ".", W("9", digits=True), ".", W("10", digits=True), "+", W("meta"), "-", W("x")),
}
HOST = text(W("host"), ".", W("tld"))


class Form:
    def __init__(self, what, name, version, source, *parts, esc=None):
        self.what, self.name, self.version, self.source = what, text(*name), text(*version), text(*source)
        self.esc = esc          # (escaped part, what it stands for)
        self.parts = text(*parts)


def forms():
    out = []
    for vn, v in VERS.items():
        n = nm(0)
        reg = text("registry+https://", HOST, "/", W("org"), "/", W("crates"), ".", W("io"), "-", W("index"))
        sparse = text("sparse+https://", HOST, "/", W("index"), "/")
        path = text("path+file:///", W("home"), "/", W("dir"), "-", W("x"), "/", W("pkg"))
        odd = text("path+file:///", W("home"), "/(", W("dir"), ")@", W("x"), ":", W("y"), "/", W("pkg"))
        git = text("git+https://", HOST, "/", W("org"), "/", W("re"), "-", W("po"))
        ssh = text("git+ssh://", W("git"), "@", HOST, ":", W("port", digits=True), "/", W("org"), "/", W("repo"), ".git")
        h = W("commit")
        for what, s in (("registry", reg), ("sparse registry", sparse), ("path", path), ("path with special characters", odd)):
            out.append(Form("opaque id, %s, %s version" % (what, vn), n, v, s, n, " ", v, " (", s, ")"))
        for what, s in (("git", git), ("git over ssh", ssh)):
            out.append(Form("opaque id, %s, %s version" % (what, vn), n, v, s, n, " ", v, " (", s, "#", h, ")"))
            for q in ((W("k"), "=", W("b1"), "/", W("b2")), (W("k"), "=", W("b1"), "#", W("b2"), "@", W("b3"), "?", W("b4"))):
                sq = text(s, "?", q)
                out.append(Form("opaque id, %s with a reference, %s version" % (what, vn), n, v, sq, n, " ", v, " (", sq, "#", h, ")"))
        for what, s in (("registry", reg), ("sparse registry", sparse), ("path", path), ("path with special characters", odd), ("git", git), ("git over ssh", ssh)):
            out.append(Form("%s id with a name, %s version" % (what, vn), n, v, s, s, "#", n, "@", v))
        enc = text("path+file:///", W("home"), "/a%20", W("b"), "/", W("pkg"))
        genc = text("git+https://", HOST, "/a%2D", W("b"), "/")
        for what, s, last in (("path", text("path+file:///", W("home"), "/(", W("d"), ")@", W("e"), "/"), (W("last"), "-", W("x"))),
                              ("escaped path", text("path+file:///", W("home"), "/a%20", W("b"), "/"), (W("last"), "_", W("x"))),
                              ("git", text("git+https://", W("user"), "@", HOST, "/", W("org"), "/"), (W("last"), "-", W("x"))),
                              ("git with an escaped path", genc, (W("last"),))):
            for last in (last, (W("last"), ".", W("x")), (W("l"), ":", W("x"), "(", W("y"), ")", ".", W("git"))):
              full = text(s, last)
              out.append(Form("%s id without a name, %s version" % (what, vn), last, v, full, full, "#", v))
        for pre in (text("git+https://", W("user"), "@", HOST, "/", W("org"), "/"), text("git+ssh://", W("git"), "@", HOST, ":", W("port", digits=True), "/", W("org"), "/"), genc):
            last = (W("last"), "-", W("x"))
            for q in ((W("k"), "=", W("b1")), (W("k"), "=", W("b1"), "-", W("b2"), ".", W("b3"), "_", W("b4")), (W("k"), "=", W("b1"), "=", W("b2"))):
                full = text(pre, last, "?", q)
                out.append(Form("git id with a reference, %s version" % vn, last, v, full, full, "#", v))
                out.append(Form("git id with a reference and a name, %s version" % vn, n, v, full, full, "#", n, "@", v))
            base = text(pre, last)
            for raw, dec in (("%2F", "/"), ("%40", "@"), ("%23", "#"), ("%3F", "?"), ("%25", "%"),
                             (("%2F", W("u"), "%23", W("v"), "%40"), ("/", W("u"), "#", W("v"), "@"))):
                raw, dec = text(*raw), text(*dec)
                dec = tuple(next((y for y in raw if getattr(y, "name", 0) == x.name), x) if isinstance(x, Word) else x for x in dec)
                for tail in ((W("b2"),), (W("b2"), "-", W("b3")), ()):
                    q = text(W("k"), "=", W("b1"))
                    src = text(base, "?", q, dec, tail)
                    for name, frag, kind in ((last, v, ""), (n, text(n, "@", v), " and a name")):
                        out.append(Form("git id with an escaped reference%s, %s version" % (kind, vn), name, v, src,
                                        base, "?", q, raw, tail, "#", frag, esc=(raw, dec)))
    return out


class Split:
    def __init__(self, a):
        self.a = a
        self.R = mk("sym", "repr")
        b = a.method("Kid", "from", trait="convert::From")
        self.r = r = a.run(b, [V("PackageId", "PackageId", ("repr",), self.R)])
        self.site = "Kid::from"
        rp = a.field_by_type("Kid", r"String")
        cs = a.field_by_type("Kid", r"\[\(usize, usize\); 3\]")
        v = r.v
        if v.op != "V":
            raise Undecided(self.site, "the id is not built in one place")
        m = dict(zip(v.a[2], v.a[3:]))
        self.repr, self.comps = m[rp], m[cs]
        self.loops = {}
        self.misplaced = []
        for lid, L in r.en.loops.items():
            if L.phi:
                self.loops[lid] = L

    def env(self, f):
        """what the form makes of the text and of the loops that decode a part of it"""
        env = {self.R: f.parts}
        for L in self.loops.values():
            d, e = self.roles(L, env)
            x = e[1]
            if f.esc:
                raw, dec = f.esc
                at = [k for k in range(len(x)) if x[k:k + len(raw)] == raw]
                if len(at) != 1:
                    raise Unclear("what is decoded is %s" % show_text(x))
                k = at[0]
                env[L.phi[d]], env[L.phi[e[0]]] = x[:k] + dec, x[k + len(raw):]
            else:
                env[L.phi[d]], env[L.phi[e[0]]] = (), x
        return env

    def roles(self, L, env):
        """(variable that collects, (variable that is consumed, its first value)) of a decoding loop"""
        if len(L.phi) != 2:
            raise Unclear("a loop that does not look like decoding")
        d = e = None
        for root in L.phi:
            i = L.init[root]
            if i.op == "c" and i.a[1] == "":
                d = root
            else:
                e = root
        if d is None or e is None:
            raise Unclear("a loop that does not look like decoding")
        try:
            x = Eval(env).val(L.init[e])
        except Undef:
            x = ()
        return d, (e, x)


def compare(rep, s, f):
    site = s.site
    try:
        ev = Eval(s.env(f))
        for e in s.r.en.events:
            if inside_loop(s, e):
                continue
            if e.kind == "panic" or e.kind == "unwrap":
                if ev.node(e.guard()):
                    rep.bad("parsed", site, "%s (%s) panics" % (show_text(f.parts), f.what))
                    return
            if e.kind == "index" and ev.node(e.guard()):
                ev.val(slice_(*e.args[:3]))
        whole = ev.val(s.repr)
        comps = ev.val(s.comps)
        if comps[:1] != ("list",) or len(comps[1]) != 3:
            raise Unclear("parts")
    except Misplaced as e:
        # what the loop that decodes leaves is only known if its steps are
        s.misplaced.append((site, "%s (%s) is cut at %s" % (show_text(f.parts), f.what, e)))
        return
    except Unclear as e:
        rep.unk("parsed", site, "%s (%s): %s" % (show_text(f.parts), f.what, e))
        return
    for what, want, c in (("name", f.name, comps[1][0]), ("version", f.version, comps[1][1]), ("source", f.source, comps[1][2])):
        try:
            got = cut(whole, c[1], c[2])
        except Unclear:
            rep.bad(what, site, "the %s of %s (%s) is taken from %r to %r of %s" % (what, show_text(f.parts), f.what, c[1], c[2], show_text(whole)))
            continue
        if got == want:
            rep.ok(what, site, f.what)
        else:
            rep.bad(what, site, "the %s of %s (%s) is taken to be %s" % (what, show_text(f.parts), f.what, show_text(got)))


def inside_loop(s, e):
    return any(fr.lid in s.loops for fr in e.frames if fr.kind in ("while", "for"))


def decoding(rep, s, f):
    """one step of the loop that decodes"""
    site = "Kid::from (decoding)"
    A, B_, D = W("a", "-._="), W("b", "-._="), W("done", None)
    C_ = W("c", "-._=")
    for L in s.loops.values():
        d, (e, x) = s.roles(L, {s.R: f.parts})
        base = {s.R: f.parts}

        def step(rest, done=(D,)):
            env = dict(base)
            env[L.phi[d]], env[L.phi[e]] = tuple(done), text(*rest)
            return Eval(env)
        # it ends exactly when nothing is left to decode
        for rest in ((A,), (), (A, "-", "#", B_)):
            ev = step(rest)
            if ev.node(L.back):
                rep.bad("decoded", site, "goes on although no character is encoded in %s" % show_text(text(*rest)))
            else:
                rep.ok("decoded", site, "end")
        for c in ESC:
            for digits in sorted({"%02X" % ord(c), "%02x" % ord(c)}):
                for pre in ((), (A,), (A, "/"), ("=",)):
                    for post in ((), (B_,), (B_, "%", "4", "0", C_), ("%", "2", "F")):
                        ev = step(text(pre, "%", digits, post))
                        bad = [p for p in s.r.en.events if p.kind in ("panic", "unwrap") and inside_loop(s, p) and ev.node(p.guard())]
                        if bad or not ev.node(L.back):
                            rep.bad("decoded", site, "%%%s, which stands for %r, is not decoded" % (digits, c))
                            break
                        dn, en = ev.val(L.next[d]), ev.val(L.next[e])
                        if dn != text(D, pre, c) or en != text(post):
                            rep.bad("decoded", site, "after %%%s, which stands for %r, the text %s becomes %s and %s is left" % (
                                digits, c, show_text(text(pre, "%", digits, post)), show_text(dn[1:]), show_text(en)))
                            break
                    else:
                        rep.ok("decoded", site, digits)
                        continue
                    break


@rule("C22")
def split(a, rep):
    s = Split(a)
    fs = forms()
    for f in fs:
        compare(rep, s, f)
    f = next(f for f in fs if f.esc)
    sure = True
    try:
        decoding(rep, s, f)
    except Unclear as e:
        rep.unk("decoded", "Kid::from (decoding)", str(e))
        sure = False
    for site, what in s.misplaced:
        (rep.bad if sure else rep.unk)("parsed", site, what)
