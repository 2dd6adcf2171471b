"""Feature strings (C25) and package specs (C23, C24)"""
from ..ctx import rule, Part
from ..lib import *


def find(s, pat):
    return mk("call", "find", s, pat)


@rule("C25")
def feature_strings(a, rep):
    s = sym(0)
    b = a.method("builder::features::ParsedFeature", "from", trait="convert::From")
    pf = a.run(b, [s])
    ft = a.run(a.method("builder::features::ParsedFeature", "feat"), [pf.v])
    F = "builder::features::Feature"
    L = length(s)
    dep = atom(mk("call", "starts_with", s, S("dep:")))
    w, sl = find(s, S("?/")), find(s, S("/"))

    def kf(var, i, n):
        return V(F, var, ("krate", "feature"), slice_(s, I(0), i), slice_(s, add(i, I(n)), L))
    want = ite(dep, V(F, "Krate", ("0",), slice_(s, I(4), L)),
               ite(some_node(w), kf("Weak", some_val(w), 2),
                   ite(some_node(sl), kf("Strong", some_val(sl), 1), V(F, "Simple", ("0",), s))))
    expect(rep, "classification", "ParsedFeature::feat . from", ft.v, want)
    for r, n in ((pf, "ParsedFeature::from"), (ft, "ParsedFeature::feat")):
        no_panics(rep, "no-panic", n, r)


@rule("C05")
def activating_forms(a, rep):
    """which values of a feature activate a dependency is decided by their form"""
    feature_strings(a, Part(rep, "classification"))


@rule("C01")
def excluded_by(a, rep):
    """which packages a spec excludes"""
    spec_matches(a, rep)


@rule("C24")
def spec_matches(a, rep):
    r = a.run(a.method("pkgspec::PkgSpec", "matches"))
    s, k = sym(0), sym(1)
    ver, url, so = field(s, "version"), field(s, "url"), field(k, "source")
    src = field(some_val(so), "repr")
    begin = ite(some_node(find(src, S("+"))), add(some_val(find(src, S("+"))), I(1)), I(0))
    q, h = find(src, S("?")), find(src, S("#"))
    end = ite(some_node(q), some_val(q), ite(some_node(h), some_val(h), length(src)))
    name = eq(field(s, "name"), field(k, "name"))
    vers = b_or(b_not(some_node(ver)), eq(some_val(ver), field(k, "version")))
    urls = b_or(b_not(some_node(url)), b_not(some_node(so)),
                lift2_eq(some_val(url), slice_(src, begin, end)))
    expect_node(rep, "match-condition", "PkgSpec::matches", as_node(r.v), b_and(name, vers, urls))


def lift2_eq(x, y):
    return as_node(B(eq(x, y)))


def bad_char(s):
    """a character that cannot be part of a package name occurs in s"""
    e = elem(mk("call", "chars", s))
    return exists((e,), b_and(b_not(eq(e, C("char", "-"))), b_not(eq(e, C("char", "_"))),
                              b_not(atom(mk("call", "is_ascii_alphanumeric", e)))))


def semver(s):
    return mk("call", "semver_parse:std::result::Result<semver::Version, semver::Error>", s)


def first_char(s):
    return pick("fst", (elem(mk("call", "chars", s)),), 1, elem(mk("call", "chars", s)))


def name_version(nv, url):
    """(accepted, name, version) of the name part and the url part of a spec"""
    okk = 1
    path = None
    if url is not None:
        sch, sl = mk("call", "rfind", url, S("://")), mk("call", "rfind", url, S("/"))
        okk = b_and(b_not(atom(mk("call", "ends_with", url, S("/")))), some_node(sch), some_node(sl),
                    b_not(eq(some_val(sl), add(some_val(sch), I(2)))))
        path = slice_(url, add(some_val(sl), I(1)), length(url))
    if nv is None:
        return b_and(okk, b_not(bad_char(path))), path, NONE
    x = mk("sym", "$c")
    f = find(nv, mk("pred", B(b_or(eq(x, C("char", ":")), eq(x, C("char", "@"))))))
    i = some_val(f)
    nm, vs = slice_(nv, I(0), i), semver(slice_(nv, add(i, I(1)), length(nv)))
    both = b_and(b_not(eq(i, add(length(nv), I(-1)))), b_not(bad_char(nm)), is_node(vs, RES, "Ok"))
    if path is None:
        only, n2, v2 = b_not(bad_char(nv)), nv, NONE
    else:
        al = atom(mk("call", "is_alphabetic", first_char(nv)))
        v = semver(nv)
        only = b_ite(al, b_not(bad_char(nv)), b_and(is_node(v, RES, "Ok"), b_not(bad_char(path))))
        n2, v2 = ite(al, nv, path), ite(al, NONE, some(proj(v, RES, "Ok", "0")))
    h = some_node(f)
    return b_and(okk, b_ite(h, both, only)), ite(h, nm, n2), ite(h, some(proj(vs, RES, "Ok", "0")), v2)


@rule("C23")
def spec_parse(a, rep):
    s = sym(0)
    r = a.run(a.method("pkgspec::PkgSpec", "from_str", trait="FromStr"), [s])
    accepted = is_node(r.v, RES, "Ok")
    value = proj(r.v, RES, "Ok", "0")
    error = proj(r.v, RES, "Err", "0")
    slash, scheme = some_node(find(s, S("/"))), some_node(find(s, S("://")))
    cases = []
    for cond, u, what in ((b_and(slash, scheme), s, "url"), (b_and(slash, b_not(scheme)), mk("fmt", S("cargo://"), s), "path")):
        h = find(u, S("#"))
        i = some_val(h)
        cases.append((what, b_and(cond, b_not(some_node(h))), name_version(None, u), some(u)))
        base = slice_(u, I(0), i)
        a2, n2, v2 = name_version(slice_(u, add(i, I(1)), length(u)), base)
        cases.append((what + " with fragment", b_and(cond, some_node(h)), (b_and(b_not(eq(i, add(length(u), I(-1)))), a2), n2, v2), some(base)))
    cases.append(("name", b_not(slash), name_version(s, None), NONE))
    for what, cond, (acc, name, ver), url in cases:
        site = "PkgSpec::from_str (%s)" % what
        if not expect_node(rep, "accepts", site, accepted, acc, cond):
            continue
        g = b_and(cond, acc)
        for f, w in (("name", name), ("version", ver), ("url", url)):
            expect(rep, "parsed-" + f, site, field(value, f), w, g)
        expect_node(rep, "rejects-with", site, is_node(error, "errors::Error", "InvalidPkgSpec"), 1, b_and(cond, b_not(acc)))
    no_panics(rep, "no-panic", "PkgSpec::from_str", r)
