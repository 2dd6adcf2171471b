"""Every loop ends and nothing recurses (C12)"""
from ..ctx import rule
from ..lib import *
from .. import terms as t
from .build import *
from .graphs import model
from .safety import calls
from .walks import Walk, POPS, base

CURSOR = ("next_key", "next_element", "next_entry", "next_key_seed", "next_element_seed", "next_entry_seed", "next", "next_back", "recv", "pop", "pop_front",
          "pop_back", "pop_first", "pop_last")
ENDLESS = re.compile(r"::iter(::sources)?::(\w+::)*(repeat|repeat_with|repeat_n|from_fn|successors)$|Iterator::cycle$|Iterator>::cycle$|::cycle$")
WALKS = ("direct_dependencies", "direct_dependents", "krates_filtered")


def nodes(n):
    st = [n]
    while st:
        n = st.pop()
        if isinstance(n, list):
            st.extend(n)
        elif isinstance(n, dict):
            yield n
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))


def loops_of(b):
    """(loops that are not `for`, `for` loops) written in a body"""
    fors, inner, out = [], set(), []
    for n in nodes(b["body"]):
        if n.get("k") == "Match" and (n.get("src") or "").startswith("ForLoop"):
            fors.append(n)
            for m in nodes(n["arms"][0]["b"]):
                if m.get("k") == "Loop":
                    inner.add(id(find_loop(n)))
                    break
    for n in nodes(b["body"]):
        if n.get("k") == "Loop" and id(n) not in inner:
            out.append(n)
    return out, fors


def find_loop(m):
    from ..engine import find_next_match
    return find_next_match(m["arms"][0]["b"])[0]


def measure(L, root, cond):
    """how one variable changes in an iteration: (condition under which it gets smaller, ... stays, ... anything else)"""
    phi, new = L.phi[root], L.next[root]
    less = same_ = other = 0

    def go(v, n):
        nonlocal less, same_, other
        n = b_and(n, cond)
        if n == 0:
            return
        if v.op == "choice":
            for x, m in alts(v):
                go(x, b_and(n, m))
        elif v is phi:
            same_ = b_or(same_, n)
        elif v.op == "coll" and v.a[1] and t.is_ident_piece(v.a[1][0]):
            grow = b_or(*[exists(p.a[0], p.a[1]) if p.a[0] else p.a[1] for p in v.a[1][1:]])
            other = b_or(other, b_and(n, grow))
            go(v.a[1][0].a[0][0].a[0], b_and(n, b_not(grow)))
        elif v.op == "slice" and v.a[0] is phi:
            lo, hi = v.a[1], v.a[2]
            here = b_or(t.gt_const(lo, 0), t.lt(hi, length(phi)))
            less = b_or(less, b_and(n, here))
            same_ = b_or(same_, b_and(n, b_not(here)))
        elif v.op == "poprest" and v.a[0] is phi:
            less = b_or(less, b_and(n, t.nonempty(phi)))
            same_ = b_or(same_, b_and(n, b_not(t.nonempty(phi))))
        elif v.op == "vremove" and v.a[0] is phi:
            less = b_or(less, n)
        else:
            other = b_or(other, n)
    go(new, 1)
    return less, same_, other


def shrinks(L):
    """does a lexicographic order of the variables decrease in every iteration"""
    rest = L.back
    used = []
    while rest:
        for root in L.phi:
            if root in used:
                continue
            less, same_, other = measure(L, root, rest)
            if not b_and(rest, other) and b_and(rest, less):
                used.append(root)
                rest = b_and(rest, same_)
                break
        else:
            return rest, used
    return 0, used


def consumes(r, L):
    """an element is taken from something outside in every iteration that goes on"""
    for e in r.en.events:
        if e.kind in ("call", "mutate", "pure") and e.name in CURSOR and e.res is not None and any(f.lid == L.lid for f in e.frames):
            got = e.res
            for n in (some_node(got), b_and(is_node(got, RES, "Ok"), some_node(proj(got, RES, "Ok", "0")))):
                if n not in (0, 1) and implies(L.back, n):
                    return e
    return None


def is_node(x, adt, var):
    return t.is_node(x, adt, var)


def judge(rep, a, r, L, site, walks):
    if L.sp in walks:
        return
    if not L.back:
        rep.ok("loop-ends", site, "at most one iteration")
        return
    e = consumes(r, L)
    if e is not None and e.args and not (e.args[0].op == "phi" and e.args[0].a[1] in L.phi and e.name in POPS):
        rep.ok("loop-ends", site, "every iteration takes something with %s" % e.name)
        return
    rest, used = shrinks(L)
    if not rest:
        rep.ok("loop-ends", site, "something gets smaller in every iteration")
        return
    # nothing that the loop depends on changes
    deps = [root for root, phi in L.phi.items() if node_uses(L.back, phi) or node_uses(rest, phi)]
    if all(not b_and(rest, b_not(measure(L, x, rest)[1])) for x in deps) and not outer_atoms(L):
        rep.bad("loop-ends", site, "nothing that decides whether the loop goes on changes in it when %s" % t.show_node(rest)[:200])
        return
    rep.unk("loop-ends", site, "no quantity was found that gets smaller when %s" % t.show_node(rest)[:200])


def node_uses(n, phi):
    return any(mentions(at, {phi}) for at in atoms_in(n))


def outer_atoms(L):
    """conditions that may change without a variable of the loop changing"""
    return [at for at in atoms_in(L.back) if taints(at, ("phi",))]


@rule("C12")
def endings(a, rep):
    c = calls(a)
    # recursion
    graph = {b["did"]: {cd for p, cd, n in c.calls[b["did"]] if cd in c.calls} for b in a.p.bodies}
    for comp in cycles(graph):
        names = sorted(c.bydid[d]["path"] for d in comp)
        if serde_only(names):
            rep.ok("no-recursion", names[0], "bounded by the nesting of the input, on which the parser places a limit")
        elif blind(c, comp):
            rep.bad("no-recursion", names[0], "recursion along the edges of the graph without remembering where it was: %s" % " -> ".join(names))
        else:
            rep.unk("no-recursion", names[0], "recursion: %s" % " -> ".join(names))
    rep.ok("no-recursion", "call graph", "%d functions" % len(graph))
    # the walks over the graph
    walks = set()
    for name in WALKS:
        try:
            w = Walk(a, name)
        except Undecided as e:
            rep.unk("loop-ends", name, str(e))
            continue
        walks.add(w.L.sp)
        again = w.cond(w.pushes, seen=True)
        once = b_and(w.cond(w.pushes), b_not(w.cond(w.marks)))
        if again == 0 and once == 0:
            rep.ok("loop-ends", name, "a node is put on the work list once")
        elif w.seen_roots and not [at for at in atoms_in(b_or(again, once)) if taints(at, ("phi",))] or not w.marks:
            rep.bad("loop-ends", name, "a node that was visited is put on the work list again when %s" % t.show_node(b_or(again, once)))
        else:
            rep.unk("loop-ends", name, "what was visited was not recognised")
    g = model(a)
    walks.add(g.W.sp if hasattr(g, "W") else g.r.en.loops[g.lid].sp)
    done = {}
    nwhile = nfor = 0
    inner = {}
    for b in a.p.bodies:
        ws, fs = loops_of(b)
        nfor += len(fs)
        nwhile += len(ws)
        for f in fs:
            ty = a.p.types[f["x"]["a"][0]["ty"]]["s"] if f["x"].get("k") == "Call" and f["x"].get("a") and "ty" in f["x"]["a"][0] else ""
            if re.search(r"RangeFrom<|iter::(Repeat|RepeatWith|FromFn|Successors|Cycle)<", ty):
                rep.unk("loop-ends", f.get("sp") or b["path"], "a loop over an iterator without end: %s" % ty[:80])
        for p, cd, n in c.calls[b["did"]]:
            if ENDLESS.search(p):
                rep.unk("loop-ends", b["path"], "an iterator without end: %s" % p)
        if ws:
            inner[b["did"]] = (b, ws)
    rep.ok("loop-ends", "for loops", "%d loops over iterators" % nfor)
    runs = []
    for did, (b, ws) in inner.items():
        sps = {w.get("sp") for w in ws}
        if sps <= walks:
            continue
        if b.get("name") == "build_with_metadata" or b["path"].startswith("builder") and "closure" in b["path"]:
            r = g.r
        else:
            try:
                r = a.run(b)
            except Undecided as e:
                rep.unk("loop-ends", b["path"], str(e))
                continue
        recs = [l for l in r.en.loops.values() if l.sp in sps]
        for sp in sps - {l.sp for l in recs} - walks:
            rep.unk("loop-ends", b["path"], "a loop that was not analysed (%s)" % sp)
        for l in recs:
            judge(rep, a, r, l, b["path"], walks)


def blind(c, comp):
    """does a recursion follow the edges of a graph and remember nothing"""
    ps = [p for d in comp for p, cd, n in c.calls[d]]
    return any(re.search(r"petgraph.*::(edges|edges_directed|neighbors|neighbors_directed)$", p) for p in ps) and \
        not any(re.search(r"(Set|Map|FixedBitSet)\b.*::(insert|contains|contains_key|entry|put|get)$|VisitMap|::(visit|contains|any|position)$", p) for p in ps)


def serde_only(names):
    return all(("Deserialize" in n or "Visitor" in n) for n in names)


def cycles(graph):
    """strongly connected parts with a cycle"""
    index, low, on, st, out = {}, {}, set(), [], []

    def visit(v):
        work = [(v, iter(graph.get(v, ())))]
        index[v] = low[v] = len(index)
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in graph:
                    continue
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(graph[w])))
                    break
                if w in on:
                    low[u] = min(low[u], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    if len(comp) > 1 or u in graph[u]:
                        out.append(comp)
    for v in graph:
        if v not in index:
            visit(v)
    return out
