"""Determinism and effects (C35), immutability of a built graph (C36)"""
import re
from ..ctx import rule
from ..lib import *

HASHC = re.compile(r"std::collections::(hash_map::)?Hash(Map|Set)\b|std::collections::hash_(map|set)::")
HASHOK = {"insert", "contains", "contains_key", "get", "get_mut", "remove", "len", "is_empty", "new", "with_capacity", "default",
          "entry", "clear", "reserve", "or_insert", "or_insert_with", "or_default", "and_modify", "get_or_insert_with", "take", "replace",
          "index", "deref", "borrow", "as_ref", "eq", "ne", "clone", "is_subset", "is_superset", "is_disjoint", "drop",
          "all", "any", "contains_value", "get_key_value", "remove_entry", "is_some", "is_none"}
INTERIOR = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Atomic\w+)\b(<|$|>|,)")

EFFECTS = [
    ("process", r"^std::process::"),
    ("environment", r"^std::env::"),
    ("network", r"^std::net::|^std::os::unix::net"),
    ("clock", r"^std::time::(Instant|SystemTime)::(now|elapsed)|^std::time::SystemTime"),
    ("thread", r"^std::thread::|^std::sync::mpsc"),
    ("randomness", r"^rand|RandomState|hash::random|fastrand|getrandom"),
    ("console", r"^std::io::(_print|_eprint|stdio|stdin|stdout|stderr|Stdin|Stdout|Stderr)"),
    ("file system", r"^std::fs::|^(std::path::Path|camino::Utf8Path)::(canonicalize|canonicalize_utf8|exists|try_exists|is_file|is_dir|is_symlink|metadata|"
                    r"symlink_metadata|read_dir|read_dir_utf8|read_link|read_link_utf8)$|^std::os::unix::fs"),
]
EFFECTS = [(n, re.compile(r)) for n, r in EFFECTS]


class Calls:
    """what every body of the crate calls, from its type-checked tree"""

    def __init__(self, a):
        self.a = a
        self.calls = {}         # did -> [(callee path, callee did, node)]
        self.unsafe = []
        self.casts = []
        self.bydid = {b["did"]: b for b in a.p.bodies}
        for b in a.p.bodies:
            out = self.calls[b["did"]] = []
            self.walk(b["body"], out, b)

    def walk(self, n, out, b):
        st = [n]
        while st:
            n = st.pop()
            if isinstance(n, list):
                st.extend(n)
                continue
            if not isinstance(n, dict):
                continue
            if "fn" in n:
                out.append((n.get("rfn") or n["fn"], n.get("rdid") or n["did"], n))
            if n.get("unsafe") is True and not n.get("mac"):
                self.unsafe.append((b["path"], n.get("sp", "")))
            if n.get("k") == "Closure":
                out.append(("closure", n.get("id"), n))
            if n.get("k") == "Cast":
                self.casts.append((b, n))
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))

    def reach(self, roots):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            d, why = st.pop()
            if d in seen or d not in self.calls:
                continue
            seen[d] = why
            for p, cd, n in self.calls[d]:
                st.append((cd, d))
        return seen

    def path_to(self, seen, d):
        r = []
        while d is not None:
            r.append(self.bydid[d]["path"])
            d = seen[d]
        return " <- ".join(r[:6])

    def effects(self, d):
        for p, cd, n in self.calls.get(d, ()):
            for kind, rx in EFFECTS:
                if rx.search(p) or rx.search(n.get("fn", "")):
                    yield kind, p, n


def calls(a):
    c = getattr(a, "_calls", None)
    if c is None:
        c = a._calls = Calls(a)
    return c


def is_command(b):
    return "MetadataCommand" in (b.get("self") or "")


@rule("C35")
def effects(a, rep):
    c = calls(a)
    a.analysed |= {b["path"] for b in a.p.bodies}
    build = [b for b in a.p.bodies if b.get("name") == "build_with_metadata"]
    query = [b for b in a.p.bodies if re.match(r"(Krates|Node|Edge|Kid)\b", norm_ty(b.get("self") or "")) or "PkgSpec" in (b.get("self") or "")]
    if len(build) != 1 or not query:
        raise Undecided("Builder::build_with_metadata", "anchor not found")
    for what, roots, allowed in (("build", build, {"file system"}), ("queries", query, set())):
        seen = c.reach([b["did"] for b in roots])
        bad = set()
        n = 0
        for d in seen:
            n += len(c.calls[d])
            for kind, p, node in c.effects(d):
                if kind == "file system" and "file system" in allowed and re.search(r"::canonicalize(_utf8)?$", p):
                    continue
                bad.add((kind, p, c.path_to(seen, d)))
        for kind, p, why in sorted(bad):
            rep.bad("no-" + kind.replace(" ", "-"), "%s: %s" % (what, p), "%s access while %s: %s, reached through %s" % (kind, "building" if what == "build" else "querying", p, why))
        if not bad:
            rep.ok("no-effects", what, "%d functions, %d calls" % (len(seen), n))
    # processes and the environment are the metadata command's business only
    for b in a.p.bodies:
        root = b
        while root.get("parent") in c.bydid:
            root = c.bydid[root["parent"]]
        for kind, p, node in c.effects(b["did"]):
            if kind in ("process", "environment") and is_command(root):
                continue
            if kind == "process" and re.search(r"::(ExitStatus|Output|ExitCode)\b", p):
                continue
            if kind == "file system":
                continue
            if is_command(root) and kind == "console" and "process" in p:
                continue
            # a private helper of the command is fine: every caller is a command method
            up = callers(c, b["did"])
            if kind in ("process", "environment") and up and all(is_command(c.bydid[x]) or c.bydid[x].get("name") == "build" for x in up):
                continue
            rep.bad("effect", "%s: %s" % (root["path"], p), "%s access outside the metadata command" % kind)
    rep.ok("effect", "whole crate")


def callers(c, d):
    """outermost functions from which d is reached"""
    rev = {}
    for x, out in c.calls.items():
        for p, cd, n in out:
            rev.setdefault(cd, set()).add(x)
    seen, st, tops = {d}, [d], set()
    while st:
        x = st.pop()
        ups = rev.get(x, set()) - {x}
        if not ups:
            tops.add(x)
        for u in ups:
            if u not in seen:
                seen.add(u)
                st.append(u)
    return tops - {d}


SINK = re.compile(r"petgraph.*::(add_node|add_edge|update_edge|try_add_node|try_add_edge)$|OnFilter::filtered$|^std::iter::Extend|::push_str$|write_(str|fmt)$")


def ordered_sink(body, call):
    """what the loop over the result of this call does that keeps the order for good"""
    st, m = [body], None
    while st and m is None:
        n = st.pop()
        if isinstance(n, list):
            st.extend(n)
        elif isinstance(n, dict):
            x = n.get("x")
            if n.get("k") == "Match":
                y = x
                while isinstance(y, dict) and y is not call and y.get("k") in ("Scope", "Use", "Block", "DropTemps"):
                    y = y.get("x") or y.get("e")
                if y is call:
                    m = n
                    break
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))
    if m is None:
        return None
    st = [v for k, v in m.items() if k != "x"]
    while st:
        n = st.pop()
        if isinstance(n, list):
            st.extend(n)
        elif isinstance(n, dict):
            f = n.get("rfn") or n.get("fn")
            if isinstance(f, str) and SINK.search(f):
                return f.split("::")[-1]
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))
    return None


@rule("C35")
def determinism(a, rep):
    c = calls(a)
    for b in a.p.bodies:
        if b.get("derived"):
            continue
        for p, cd, n in c.calls[b["did"]]:
            if p == "closure":
                continue
            tys = [str(x) for x in n.get("targs", ())] + [n.get("full", "")]
            for x in n.get("a") or ():
                if isinstance(x, dict) and "ty" in x:
                    tys.append(a.p.ty(x["ty"]))
            if not any(HASHC.search(t_) for t_ in tys):
                continue
            name = n.get("name") or p.split("::")[-1]
            if name in HASHOK or cd in c.calls:
                continue
            if name in ("from_iter", "collect", "extend"):
                # building one is harmless, consuming one is not
                a0 = [str(x) for x in tys[1:]]
                srcs = [t_ for t_ in tys if re.search(r"hash_(map|set)::(Into)?Iter|hash_(map|set)::(Keys|Values|Drain)", t_)]
                arg1 = tys[-1] if name == "extend" else ""
                if not srcs and not HASHC.search(arg1 if name == "extend" else ""):
                    continue
            later = any(re.search(r"::sort(_\w+)?$", q[0]) or re.search(r"BTree(Map|Set)", str(q[2].get("full", ""))) for q in c.calls[b["did"]])
            site = "%s: %s" % (b["path"], p)
            sink = name == "into_iter" and ordered_sink(b["body"], n)
            if sink:
                rep.bad("order", site, "the order in which a collection with unspecified order is iterated reaches %s" % sink)
            elif later:
                rep.unk("order", site, "a hash table is iterated; the result is perhaps sorted afterwards")
            else:
                rep.bad("order", site, "iterates a collection with unspecified order (%s)" % [t_ for t_ in tys if HASHC.search(t_)][0])
    rep.ok("order", "whole crate")
    for b, n in c.casts:
        s = a.p.ty(n["x"]["ty"]) if "ty" in n.get("x", {}) else ""
        if re.match(r"\*(const|mut) ", s) and re.match(r"[ui](size|\d+)$", a.p.ty(n["ty"])):
            rep.bad("address", b["path"], "an address is used as a number")
    rep.ok("address", "whole crate")


@rule("C35")
def no_unsafe(a, rep):
    c = calls(a)
    for p, sp in c.unsafe:
        rep.bad("unsafe", p, "an unsafe block at %s" % sp)
    for b in a.p.bodies:
        if b.get("unsafe"):
            rep.bad("unsafe", b["path"], "an unsafe function")
    for it in a.p.items:
        if "ForeignMod" in it["kind"]:
            rep.bad("unsafe", it["path"], "a foreign module")
        if it["kind"].startswith("Static") and ("mutability: Mut" in it["kind"] or INTERIOR.search(it.get("ty", ""))):
            rep.bad("global-state", it["path"], "mutable global state of type %s" % it.get("ty"))
    rep.ok("unsafe", "whole crate")
    rep.ok("global-state", "whole crate")


@rule("C35")
def file_access(a, rep):
    """the build canonicalizes only for workspace filters"""
    from .build import built
    r = built(a)
    wf = field(sym(0), a.field_by_type("builder::Builder", r"Vec<(std::path::)?PathBuf>"))
    for e in r.evs("call", "pure"):
        if e.name == "canonicalize" and e.guard() != 0:
            if implies(e.guard(), nonempty(wf)):
                rep.ok("filtered-only", "canonicalize")
            elif taints(e.guard()):
                rep.unk("filtered-only", "canonicalize", "condition not interpreted")
            else:
                rep.bad("filtered-only", "canonicalize", "the file system is consulted without workspace filters")


@rule("C36")
def graph_type(a, rep):
    ad = a.adt("Krates")
    if ad is None:
        raise Undecided("Krates", "type is gone")
    for f in ad["v"][0]["f"]:
        rep.check(not f["pub"], "private", "Krates.%s" % f["n"], "a public field: callers can change the graph")
    # no interior mutability in what the graph holds
    seen, st = set(), [("Krates", "Krates")]
    while st:
        n, why = st.pop()
        if n in seen:
            continue
        seen.add(n)
        for v in (a.adt(n) or {"v": []})["v"]:
            for f in v["f"]:
                if INTERIOR.search(f["ty"]):
                    rep.bad("interior", "%s.%s" % (n, f["n"]), "can change behind a shared reference: %s" % f["ty"])
                for m in re.findall(r"[A-Za-z_][\w:]*", f["ty"]):
                    x = a.adt(m)
                    if x and x.get("local"):
                        st.append((m, why))
    rep.ok("interior", "Krates", "%d types" % len(seen))


@rule("C36")
def api(a, rep):
    n = 0
    mutk = re.compile(r"&('\w+ )?mut (\w+::)*Krates\b")
    for b in a.p.bodies:
        if b["kind"] == "Closure" or "sig" not in b or "{closure" in b["path"]:
            continue
        isk = re.match(r"(&('\w+ )?(mut )?)?Krates\b", norm_ty(b.get("self") or "")) is not None
        public = b.get("reach") or bool(b.get("itrait"))
        if not public:
            continue
        sig = b["sig"]
        n += 1
        if mutk.search(sig):
            rep.bad("shared-only", b["path"], "takes or returns the graph by mutable reference: %s" % sig)
            continue
        ps, _, ret = sig.partition(" -> ")
        if isk and re.search(r"&('\w+ )?mut ", ret):
            rep.bad("shared-only", b["path"], "hands out a mutable reference: %s" % sig)
        elif re.search(r"\bKrates<", ps) and not re.search(r"&('\w+ )?Krates<", ps) and re.search(r"\bKrates<", ret):
            rep.bad("shared-only", b["path"], "turns a graph into another graph: %s" % sig)
        elif re.search(r"&('\w+ )?Krates<", ps) and INTERIOR.search(ret):
            rep.bad("shared-only", b["path"], "hands out a mutable handle: %s" % sig)
    rep.check(n > 20, "shared-only", "public functions", "only %d found" % n)
    for im in a.p.impls:
        if re.match(r"(&('\w+ )?mut )?Krates\b", norm_ty(im["self"])) and re.search(r"(IndexMut|DerefMut|AsMut|BorrowMut|Extend)$", im["trait"] or ""):
            rep.bad("shared-only", "%s for Krates" % im["trait"], "this implementation changes the graph")
    # public functions that build a graph from parts the caller chooses
    for b in a.p.bodies:
        if b["kind"] == "Closure" or "sig" not in b or not b.get("reach") or "{closure" in b["path"]:
            continue
        ps, _, ret = b["sig"].partition(" -> ")
        if re.search(r"\bKrates<", ret) and not re.search(r"Krates<", ps) and "petgraph" in ps:
            rep.bad("constructed", b["path"], "builds a graph from a caller's raw graph")
    rep.ok("constructed", "public functions")
