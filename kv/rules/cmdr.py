"""The metadata command: every option reaches cargo once (C26), a failed command is an error (C27)"""
import re
from ..ctx import rule
from ..lib import *

CMD = "builder::Cmd"
MDC = "cm::cmd::MetadataCommand"


def mdc_ty(a):
    for n in (MDC, "cm::MetadataCommand"):
        if a.adt(n):
            return n
    raise Undecided("MetadataCommand", "type is gone")


def changed(a, ty, r):
    """fields of *self a setter changes, with their new values"""
    h = r.heap(0)
    out = {}
    for f in a.fields(ty):
        v = field(h, f)
        if v is not field(sym(0), f):
            out[f] = v
    return out


def setter(a, rep, rule_, ty, name, kind, args=None):
    """obligation: the setter changes one field, in the way its kind says; returns the field"""
    site = "%s::%s" % (ty.split("::")[-1], name)
    r = a.run(a.method(ty, name), args)
    ch = changed(a, ty, r)
    if len(ch) != 1:
        tn = taints(r.heap(0))
        (rep.unk if tn or r.heap(0).op not in ("with", "sym", "V") else rep.bad)(rule_, site, "expected one field to be set, found %s" % sorted(ch))
        raise Undecided(site, "the setter has no single field")
    (f, v), = ch.items()
    old, p1 = field(sym(0), f), sym(1)
    if kind == "some":
        want = some(p1)
    elif kind == "true":
        want = B(1)
    elif kind == "set":
        want = p1
    elif kind == "extend":
        want = coll("vec", [piece((elem(old),), 1, elem(old)), piece((elem(p1),), 1, elem(p1))])
        if v.op == "fold" and v.a[0] == (elem(p1),):
            return grown(a, rep, rule_, site, ty, f, v, elem(p1))
    elif kind == "insert":
        want = mk("put", old, p1, sym(2))
    elif callable(kind):
        want = kind(old)
    expect(rep, rule_, site, v, want)
    return f


def grown(a, rep, rule_, site, ty, f, v, el):
    """a list that a loop adds the elements of another one to"""
    es, n, lid, phi, new, old = v.a
    skip = b_not(n)
    for x, g in alts(new):
        if x is phi:
            skip = b_or(skip, g)
        elif x.op == "coll" and len(x.a[1]) == 2 and is_ident_piece(x.a[1][0], phi) and x.a[1][1].op == "piece" and not x.a[1][1].a[0] and x.a[1][1].a[2] is el:
            skip = b_or(skip, b_and(g, b_not(x.a[1][1].a[1])))
        elif not (x.op == "coll" and len(x.a[1]) == 2 and is_ident_piece(x.a[1][0], phi) and x.a[1][1] is el):
            rep.unk(rule_, site, "the loop does something else than adding elements")
            return f
    if not skip:
        rep.ok(rule_, site)
        return f
    used = {y.a[1] for at in atoms_in(skip) for y in subterms(at) if y.op == "field" and y.a[0] is el}
    whole = any(y is el for at in atoms_in(skip) for y in direct(at))
    tn = taints(B(skip), ("phi",))
    m = re.search(r"Vec<(.*)>$", a.fields(ty)[f])
    ad = a.p.adts.get(m.group(1)) if m else None
    every = ad is None or used >= {x["n"] for x in ad["v"][0]["f"]}
    if tn or whole or every or not used:
        rep.unk(rule_, site, "an element is skipped if %s" % show_node(skip, 4))
    else:
        rep.bad(rule_, site, "an element is not added if %s" % show_node(skip, 5))
    return f


def subterms(x):
    out = []
    walk(x, out.append)
    return out


def direct(x):
    """the direct operands of all subterms that are not field reads"""
    out = []

    def f(y):
        if y.op != "field":
            for z in y.a:
                out.extend(z if isinstance(z, tuple) else (z,))
    walk(x, f)
    return [z for z in out if isinstance(z, T)]


def bag(x):
    """a list up to order and repetition"""
    while True:
        if x.op in ("sorted", "dedup", "rev"):
            x = x.a[0]
        elif x.op == "coll" and len(x.a[1]) == 1 and x.a[1][0].op == "piece":
            p = x.a[1][0]
            if len(p.a[0]) == 1 and p.a[1] == 1 and p.a[2] is p.a[0][0]:
                x = p.a[0][0].a[0]
            else:
                return x
        else:
            return x


def nb(v):
    """joined lists up to order, repetition and the separator cargo accepts"""
    def f(x):
        if x.op == "call" and x.a[0] == "join" and len(x.a) == 3 and x.a[2].op == "c" and x.a[2].a[1] in (" ", ","):
            return mk("call", "join", bag(x.a[1]), S(" "))
        return x
    if v.op == "choice":
        return choice([(nb(x), g) for x, g in alts(v)])
    if v.op == "tup":
        return mk("tup", *[nb(x) for x in v.a])
    return f(v)


def pieces(rep, site, v):
    """(program, arguments, other settings) of a command value"""
    if v.op != "coll" or any(p.op != "piece" or p.a[2].op != "tup" for p in v.a[1]):
        rep.unk("command", site, "the command is not a sequence of settings: %s" % show(v, 4))
        return None
    prog, args, rest = [], [], []
    for p in v.a[1]:
        k = p.a[2].a[0].a[1]
        x = p.a[2].a[1] if k == "arg" else None
        if x is not None and x.op == "fmt" and len(x.a) == 2 and x.a[0].op == "c" and re.match(r"--[\w-]+=$", str(x.a[0].a[1])):
            # `--option=value` in one argument
            args.append(piece(p.a[0], p.a[1], mk("tup", S("arg"), S(x.a[0].a[1][:-1]))))
            args.append(piece(p.a[0], p.a[1], mk("tup", S("arg"), nb(x.a[1]))))
            continue
        (prog if k == "new" else args if k == "arg" else rest).append(piece(p.a[0], p.a[1], nb(p.a[2])))
    return prog, args, rest


def group_match(rep, site, got, groups, first, last):
    """got is a permutation of the groups (each contiguous), first and last in their places"""
    todo = dict(groups)
    i = 0
    order = []
    while i < len(got):
        hit = None
        for n, g in todo.items():
            if i + len(g) <= len(got) and all(same_piece(x, y, 1) for x, y in zip(got[i:i + len(g)], g)):
                hit = n
                break
        if hit is None:
            tn = taints(got[i])
            (rep.unk if tn else rep.bad)("option", site, "an argument the property does not prescribe: %s" % show(got[i], 9))
            return
        order.append(hit)
        i += len(todo.pop(hit))
    for n in todo:
        rep.bad("option", "%s: %s" % (site, n), "the option does not reach cargo exactly once; arguments: %s" % "; ".join(show(x, 7) for x in got))
    for n in groups:
        if n not in todo:
            rep.ok("option", "%s: %s" % (site, n))
    if order:
        rep.check(order[0] == first, "order", site + ": subcommand", "the subcommand is not first")
        rep.check(order[-1] == last or last in todo, "order", site + ": other options", "the other options are not last")


def arg(v, g=1, es=()):
    return piece(es, g, mk("tup", S("arg"), v))


def flag(name, n):
    return [arg(S(name), n)]


def pair(name, v, n):
    return [arg(S(name), n), arg(v, n)]


def command_of(rep, site, v, groups, prog, cwd, env):
    ps = pieces(rep, site, v)
    if ps is None:
        return
    pr, args, rest = ps
    group_match(rep, site, args, groups, "subcommand", "other options")
    if len(pr) == 1:
        expect(rep, "program", site, pr[0].a[2].a[1], prog)
    else:
        rep.unk("program", site, "no single program")
    for what, want in (("current_dir", cwd), ("env", env)):
        g = [p for p in rest if p.a[2].a[0].a[1] == what]
        w = [x for x in want if x.a[1] != 0]
        okk = len(g) == len(w) and all(same_piece(x, y, 1) for x, y in zip(g, w))
        if okk:
            rep.ok("setting", site + ": " + what)
        elif any(taints(x) for x in g):
            rep.unk("setting", site + ": " + what, "not interpreted")
        else:
            rep.bad("setting", site + ": " + what, "expected %s but found %s" % ([show(x, 7) for x in w], [show(x, 7) for x in g]))
    for p in rest:
        k = p.a[2].a[0].a[1]
        if k not in ("current_dir", "env", "stderr", "stdout", "stdin"):
            rep.bad("setting", site + ": " + str(k), "a setting the property does not know: %s" % show(p, 6))


def base():
    return [arg(S("metadata")), arg(S("--format-version")), arg(S("1"))]


def program(v):
    var = mk("call", "var", S("CARGO"))
    return ite(some_node(v), some_val(v), ite(is_node(var, RES, "Ok"), proj(var, RES, "Ok", "0"), S("cargo")))


@rule("C26")
def metadata_command(a, rep):
    ty = mdc_ty(a)
    me = sym(0)
    F = {}
    for n, kind in (("cargo_path", "some"), ("manifest_path", "some"), ("current_dir", "some"), ("no_deps", "true"),
                    ("other_options", "set"), ("env", "insert"), ("verbose", "set")):
        F[n] = field(me, setter(a, rep, "setter", ty, n, kind))
    r = a.run(a.method(ty, "features"))
    ch = changed(a, ty, r)
    p1 = sym(1)
    enum = next((n for n in a.p.adts if n.endswith("::Features") and {v["n"] for v in a.p.adts[n]["v"]} == {"All", "NoDefault", "Selected"}), None)
    if enum is None:
        raise Undecided("Features", "type is gone")
    for var, key in (("All", "all_features"), ("NoDefault", "no_default_features"), ("Selected", "features")):
        n = is_node(p1, enum, var)
        hit = [f for f, v in ch.items() if not same(v, field(me, f), n)]
        if len(hit) != 1:
            (rep.unk if taints(r.heap(0)) else rep.bad)("setter", "MetadataCommand::features " + var, "sets %s" % hit)
            raise Undecided("MetadataCommand::features", "no single field for " + var)
        old = field(me, hit[0])
        sel = proj(p1, enum, "Selected", "0")
        want = B(1) if var != "Selected" else coll("vec", [piece((elem(old),), 1, elem(old)), piece((elem(sel),), 1, elem(sel))])
        expect(rep, "setter", "MetadataCommand::features " + var, ch[hit[0]], want, n)
        F[key] = old
    new = a.run(a.method(ty, "new")).v
    for n, v in F.items():
        x = field(new, v.a[1])
        want = NONE if n in ("cargo_path", "manifest_path", "current_dir") else B(0) if n in ("no_deps", "verbose", "all_features", "no_default_features") \
            else coll("map" if n == "env" else "vec", [])
        expect(rep, "default", "MetadataCommand::new: " + n, x, want)
    r = a.run(a.method(ty, "cargo_command"))
    fe, man, oo, env = F["features"], F["manifest_path"], F["other_options"], F["env"]
    bit = lambda v: as_node(v)
    groups = {
        "subcommand": base(),
        "--no-deps": flag("--no-deps", bit(F["no_deps"])),
        "--features": pair("--features", nb(mk("call", "join", fe, S(" "))), nonempty(fe)),
        "--all-features": flag("--all-features", bit(F["all_features"])),
        "--no-default-features": flag("--no-default-features", bit(F["no_default_features"])),
        "--manifest-path": pair("--manifest-path", some_val(man), some_node(man)),
        "other options": [arg(elem(oo), 1, (elem(oo),))],
    }
    cd = F["current_dir"]
    command_of(rep, "cargo_command", r.v, groups, program(F["cargo_path"]),
               [piece((), some_node(cd), mk("tup", S("current_dir"), some_val(cd)))],
               [piece((elem(env),), 1, mk("tup", S("env"), field(elem(env), "0"), field(elem(env), "1")))])
    no_panics(rep, "no-panic", "cargo_command", r)


@rule("C26")
def cmd(a, rep):
    me = sym(0)
    F = {}
    for n, kind in (("cargo_path", "some"), ("manifest_path", "some"), ("current_dir", "some"), ("no_default_features", "true"),
                    ("all_features", "true"), ("features", "extend"), ("other_options", "extend")):
        F[n] = field(me, setter(a, rep, "setter", CMD, n, kind))
    r = a.run(a.method(CMD, "lock_opts"))
    ch = changed(a, CMD, r)
    for n in ("frozen", "locked", "offline"):
        hit = [f for f, v in ch.items() if same(v, field(sym(1), n))]
        if len(hit) != 1:
            (rep.unk if taints(r.heap(0)) else rep.bad)("setter", "Cmd::lock_opts " + n, "is stored in %s" % hit)
            raise Undecided("Cmd::lock_opts", "no field for " + n)
        rep.ok("setter", "Cmd::lock_opts " + n)
        F[n] = field(me, hit[0])
    new = a.run(a.method(CMD, "new")).v
    for n, v in F.items():
        want = NONE if n in ("cargo_path", "manifest_path", "current_dir") else coll("vec", []) if n in ("features", "other_options") else B(0)
        expect(rep, "default", "Cmd::new: " + n, field(new, v.a[1]), want)
    ty = mdc_ty(a)
    conv = a.run(a.method(ty, "from", trait="convert::From", full="Cmd"))
    r = a.run(a.method(ty, "cargo_command"), [conv.v])
    fe, man, oo = F["features"], F["manifest_path"], F["other_options"]
    groups = {
        "subcommand": base(),
        "--features": pair("--features", nb(mk("call", "join", fe, S(" "))), nonempty(fe)),
        "--manifest-path": pair("--manifest-path", S("Cargo.toml"), some_node(man)),
        "other options": [arg(elem(oo), 1, (elem(oo),))],
    }
    for n in ("all_features", "no_default_features", "frozen", "locked", "offline"):
        o = "--" + n.replace("_", "-")
        groups[o] = flag(o, as_node(F[n]))
    par = mk("call", "parent", some_val(man))
    cd = F["current_dir"]
    d = ite(some_node(man), some_val(par), some_val(cd))
    given = b_or(some_node(man), some_node(cd))
    empty = as_node(B(lift_node(lambda x: atom(mk("call", "is_empty", x)), d)))
    # the parent of a manifest path exists: the documented use is a path to a Cargo.toml
    care = b_or(b_not(some_node(man)), some_node(par))
    wd = ite(empty, S("."), d)
    v = all_guards(r.v, lambda n: b_and(n, care)) if False else r.v
    command_of(rep, "Cmd -> cargo", v, groups, program(F["cargo_path"]), [piece((), given, mk("tup", S("current_dir"), wd))], [])


def stderr_of(a, rep):
    """when the command's own messages go to the user instead of being captured"""
    ty = mdc_ty(a)
    r = a.run(a.method(ty, "exec"))
    o = next((e for e in r.evs("call") if e.name == "output"), None)
    if o is None or o.args[0].op != "coll":
        raise Undecided("MetadataCommand::exec", "not a command value")
    verbose = as_node(field(sym(0), setter(a, rep, "setter", ty, "verbose", "set")))
    shown = 0
    for p in o.args[0].a[1]:
        if p.a[2].a[0].a[1] == "stderr":
            for v, n in alts(p.a[2].a[1]):
                k, n = v.a[0] if v.op == "call" else None, b_and(n, p.a[1])
                if k == "inherit":
                    shown = b_or(shown, n)
                elif k == "piped":
                    shown = b_and(shown, b_not(n))
                elif k == "null" and n:
                    return verbose, shown, n
                else:
                    raise Undecided("MetadataCommand::exec", "where the messages of the command go is not known")
    return verbose, shown, 0


@rule("C26")
def verbose_shown(a, rep):
    verbose, shown, null = stderr_of(a, rep)
    expect_node(rep, "verbose", "exec", b_and(verbose, b_not(shown)), 0)


@rule("C27")
def messages_captured(a, rep):
    verbose, shown, null = stderr_of(a, rep)
    expect_node(rep, "stderr-captured", "exec", b_or(null, b_and(shown, b_not(verbose))), 0)


@rule("C27")
def exec_(a, rep):
    ty = mdc_ty(a)
    r = a.run(a.method(ty, "exec"))
    outs = [e for e in r.evs("call") if e.name in ("output", "spawn", "status")]
    if len(outs) != 1 or outs[0].name != "output":
        raise Undecided("MetadataCommand::exec", "the command is not run by one call of Command::output")
    o = outs[0]
    rep.check(o.guard() == 1, "runs", "exec", "the command is only run if %s" % show_node(o.guard()))
    cmdv = a.run(a.method(ty, "cargo_command")).v
    if o.args[0].op == "coll" and cmdv.op == "coll":
        strip = lambda v: coll(v.a[0], [p for p in v.a[1] if p.a[2].a[0].a[1] not in ("stderr", "stdout", "stdin")])
        expect(rep, "command", "exec", strip(o.args[0]), cmdv)
        for p in o.args[0].a[1]:
            if p.a[2].a[0].a[1] in ("stdout", "stdin"):
                rep.bad("stdout", "exec", "the output of the command is redirected: %s" % show(p, 5))
    else:
        rep.unk("command", "exec", "not a command value")
    out = o.res if isinstance(o.res, T) else mk("call", "output", o.args[0])
    ran = is_node(out, RES, "Ok")
    val = proj(out, RES, "Ok", "0")
    succ = atom(mk("call", "success", field(val, "status")))
    text = mk("call", "from_utf8", field(val, "stdout"))
    etext = mk("call", "from_utf8", field(val, "stderr"))
    okv, err = is_node(r.v, RES, "Ok"), proj(r.v, RES, "Err", "0")
    E = next((n for n in a.p.adts if n in ("cm::errors::Error", "cm::Error")), None)
    if E is None:
        raise Undecided("cm::Error", "type is gone")
    expect_node(rep, "io-error", "exec", is_node(err, E, "Io"), 1, b_not(ran))
    expect(rep, "io-error-cause", "exec", proj(err, E, "Io", "0"), proj(out, RES, "Err", "0"), b_not(ran))
    f = b_and(ran, b_not(succ))
    e8 = is_node(etext, RES, "Ok")
    expect_node(rep, "failed-command", "exec", is_node(err, E, "CargoMetadata"), 1, b_and(f, e8))
    expect(rep, "failed-command-stderr", "exec", proj(err, E, "CargoMetadata", "stderr"), proj(etext, RES, "Ok", "0"), b_and(f, e8))
    expect_node(rep, "failed-command-utf8", "exec", is_node(r.v, RES, "Err"), 1, b_and(f, b_not(e8)))
    s = b_and(ran, succ)
    t8 = is_node(text, RES, "Ok")
    expect_node(rep, "stdout-utf8", "exec", is_node(err, E, "Utf8"), 1, b_and(s, b_not(t8)))
    ln = elem(mk("call", "lines", proj(text, RES, "Ok", "0")))
    isj = atom(mk("call", "starts_with", ln, S("{")))
    has = exists((ln,), isj)
    line = pick("fst", (ln,), isj, ln)
    g = b_and(s, t8)
    expect_node(rep, "no-json", "exec", is_node(err, E, "NoJson"), 1, b_and(g, b_not(has)))
    js = mk("call", "from_str", line)
    calls = [e for e in r.evs("call") if e.name == "from_str"]
    if len(calls) != 1:
        rep.unk("parse", "exec", "no single parse of the output")
        return
    expect(rep, "parsed-line", "exec", outside(r, calls[0], calls[0].args[0]), line, b_and(g, has))
    js = outside(r, calls[0], calls[0].res)
    jo = is_node(js, RES, "Ok")
    expect_node(rep, "parsed", "exec", okv, jo, b_and(g, has))
    expect(rep, "parsed-value", "exec", proj(r.v, RES, "Ok", "0"), proj(js, RES, "Ok", "0"), b_and(g, has, jo))
    expect_node(rep, "json-error", "exec", is_node(err, E, "Json"), 1, b_and(g, has, b_not(jo)))
    expect(rep, "json-error-cause", "exec", proj(err, E, "Json", "0"), proj(js, RES, "Err", "0"), b_and(g, has, b_not(jo)))
    no_panics(rep, "no-panic", "exec", r)
    # build() hands the error on and builds from nothing else
