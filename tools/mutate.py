#!/usr/bin/env python3
"""mutate.py ([STRIDE=n [OFF=k]: every n-th only] REF=1: rewrite instead without a change of behaviour, and report the rules that object) [J=5] [file-substring [from-line [to-line]]]: change one operator, constant, call or statement of /repo at a time
and report the changes that compile and that no rule objects to (to be judged by hand: equivalent, or a miss)."""
import os, queue, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = int(os.environ.get("J", "5"))
BAT = os.environ.get("BAT", "/tmp/mut")
ONLY = sys.argv[1] if len(sys.argv) > 1 else ""
LO, HI = (int(sys.argv[2]) if len(sys.argv) > 2 else 0), (int(sys.argv[3]) if len(sys.argv) > 3 else 10**9)
FILES = ["src/builder.rs", "src/builder/features.rs", "src/builder/index.rs", "src/cm.rs", "src/cm/cmd.rs", "src/cm/de.rs", "src/cm/errors.rs",
         "src/cm/ser.rs", "src/errors.rs", "src/lib.rs", "src/pkgspec.rs"]
PROPS = {"src/pkgspec.rs": "C23 C24", "src/builder/index.rs": "C34 C35", "src/builder/features.rs": "C25", "src/errors.rs": "C33",
         "src/cm/errors.rs": "C33", "src/cm/de.rs": "C28 C29 C31 C33 C12", "src/cm/ser.rs": "C30 C31", "src/cm/cmd.rs": "C26 C27 C33",
         "src/cm.rs": "C28 C29 C30 C31 C32 C33 C35"}
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_ok\(\)", ".is_err()"), (r"\.is_some_and\(", ".is_none_or("), (r"\.is_none_or\(", ".is_some_and("), (r"(?<=[\w)]) \+ 1\b", ""), (r"(?<=[\w)]) - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"),
    (r" > ", " >= "), (r" < ", " <= "), (r" >= ", " > "), (r"\.rfind\(", ".find("), (r"\.find\((?=['\"\[])", ".rfind("), (r"\bOutgoing\b", "Incoming"), (r"\bIncoming\b", "Outgoing"),
    (r"\bedge\.target\(\)", "edge.source()"), (r"\bedge\.source\(\)", "edge.target()"), (r"\.filter_map\(", ".map_while("), (r"\bcontinue;", "break;"), (r"\bcontinue;", "();"),
    (r"\breturn None;", "();"), (r"\breturn true;", "();"), (r"\breturn false;", "();"), (r"\bbreak;", "();"), (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\.cmp\(([^()]+)\)", r".cmp(\1).reverse()"),
    (r"&ndep\.pkg\b", "pid"), (r"\bSome\((\w+)\)(?= *$)", "None"), (r"DepKind::Normal\b", "DepKind::Dev"), (r"DepKind::Build\b", "DepKind::Dev"), (r"\.chain\(", ".zip("),
    (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.next\(\)", ".last()"), (r"\.first\(\)", ".last()"), (r"\.or_else\(", ".and_then("), (r"\.min\(", ".max("),
    (r"krates_end\.\.", "0.."), (r"\.\.krates_end", ".."), (r"\.rev\(\)", ""), (r"\.push\(", ".insert(0, "), (r"'-'", "'_'"), (r"'_'", "'-'"), (r"'#'", "'?'"), (r"'\?'", "'#'"), (r"'@'", "':'"), (r"\"/", "\""),
    (r"\bpid\b", "root_"), (r"\.name\b(?!\()", ".version"), (r"(?<=[a-z_])\(\)\.version\(\)", "().name()"), (r"\.skip\(", ".take("), (r"\.peek\(\)\.is_none\(\)", ".peek().is_some()"),
    (r"<< ", ">> "), (r" & ", " | "), (r" \| (?=[A-Z(])", " & "), (r"\.take\(\)", ".clone()"), (r"\.remove\((\&?[\w.]+)\)", r".get(\1).cloned()"), (r"\.or_insert_with\(", ".or_insert_with_key(|_| ("),
]
SAME = [
    (r"\((&?[\w.*]+) == (&?[\w.*]+)\)", r"(\2 == \1)"), (r"if (&?[\w.*]+) == (&?[\w.*]+) \{", r"if \2 == \1 {"), (r"!([\w.]+)\.is_empty\(\)", r"(\1.len() > 0)"), (r"(?<!!)\b([\w.]+)\.is_empty\(\)", r"(\1.len() == 0)"),
    (r"([\w.()]+)\.is_some\(\)", r"!\1.is_none()"), (r"([\w.()]+)\.is_none\(\)", r"!\1.is_some()"), (r"\.is_none\(\)", ".is_some() == false"),
    (r"\.to_owned\(\)", ".to_string()"), (r"\.to_owned\(\)", ".clone()"), (r"\.clone\(\)", ".to_owned()"), (r"\.cloned\(\)", ".map(|x_| x_.clone())"), (r"\.copied\(\)", ".map(|x_| *x_)"), (r"\.copied\(\)", ".cloned()"),
    (r"\.unwrap_or_default\(\)", ".unwrap_or_else(Default::default)"), (r"\.or_default\(\)", ".or_insert_with(Default::default)"), (r"while let (.+) = (.+) \{$", r"loop { let \1 = \2 else { break };"),
    (r"^(\s*)for (.+) in (.+) \{$", r"\1let mut it_ = (\3).into_iter(); while let Some(\2) = it_.next() {"), (r"^(\s*)for (.+) in (.+) \{$", r"\1(\3).into_iter().for_each(|\2| {"),
    (r"^(\s*)if (?!let)(.+) \{$", r"\1let c_ = \2; if c_ {"), (r"\bif (?!let)(.+) \{$", r"if !(!(\1)) {"), (r"\bif (?!let)(.+) \{$", r"if (\1) == true {"), (r"\bif (?!let|!)([^&|]+) && (.+) \{$", r"if (if \1 { \2 } else { false }) {"), (r"^(\s*)if (?!let)([^&|]+) && ([^|]+) \{$", r"\1if \3 && \2 {"),
    (r"^(\s*)match (.+) \{$", r"\1let m_ = \2; match m_ {"), (r"\bmatch (.+) \{$", r"match { \1 } {"), (r"^(\s*)if let (.+) = (.+) \{$", r"\1let v_ = \3; if let \2 = v_ {"), (r"\breturn (.+);$", r"{ let r_ = \1; return r_; }"),
    (r"\.push\((\w+)\);", r".extend([\1]);"), (r"\.iter\(\)\.any\(\|(\w+)\| (.+)\) \{$", r".iter().find(|\1| { let \1 = *\1; \2 }).is_some() {"), (r"\.is_some_and\(", ".map_or(false, "), (r"\.is_none_or\(", ".map_or(true, "),
    (r"\.filter_map\(", ".flat_map("), (r"\.ok\(\)", ".map_or(None, Some)"), (r"\.then_some\((.+?)\)", r".then(|| \1)"), (r"Vec::new\(\)", "vec![]"), (r"BTreeSet::new\(\)", "BTreeSet::default()"), (r"BTreeMap::new\(\)", "BTreeMap::default()"),
    (r"let mut (\w+) = Vec::new\(\);", r"let mut \1 = Vec::with_capacity(8);"), (r"^(\s*)(\w[\w.]*) = (.+);$", r"\1let t_ = \3; \2 = t_;"), (r"^(\s*)let (\w+) = (.+);$", r"\1let \2 = { let t_ = \3; t_ };"), (r"\bcontinue;", "{ continue }"),
    (r"\.starts_with\(([^()]+)\)", r".strip_prefix(\1).is_some()"), (r"\.ends_with\(([^()]+)\)", r".strip_suffix(\1).is_some()"), (r"\.get\(([^()]+)\)", r".get({ \1 })"), (r"Some\(([\w.]+)\)$", r"Some({ \1 })"), (r"\.as_str\(\)", ".as_ref()"),
    (r"write!\(f, \"\{(\w+)\}\"\)", r'f.write_fmt(format_args!("{\1}"))'), (r"f\.write_str\((.+)\)", r'write!(f, "{}", \1)'), (r"\.map\((\w[\w:]*)\)", r".map(|x_| \1(x_))"), (r"\(\|(\w+)\| ([^{|]+)\)$", r"(|\1| { \2 })"),
    (r"(\w+)\.insert\(([^()]*(?:\(\))?[^()]*)\)\) ?\{$", r"\1.insert({ \2 })) {"), (r"\.map_or\(([^,()]+), ", r".map_or_else(|| \1, "), (r"\.unwrap_or\(([^()]+(?:\(\))?)\)", r".unwrap_or_else(|| \1)"), (r"\.unwrap\(\)", '.expect("there is one")'),
    (r"^(\s*)(\w[\w.]*)\.(\w+)\((.+)\);$", r"\1{ let a_ = \4; \2.\3(a_); }"), (r"^(\s*)(Self::\w+(?:\(\w+\))?) => (?!\{)(.+),$", r"\1\2 => { \3 }"),
]
REF = bool(os.environ.get("REF"))
STMT = re.compile(r"^\s*(?!let |return|use |pub |mod |//|#|impl|fn |struct|enum|const|static|type|\}|break|continue|\))[\w.&*!]+.*;\s*$")
STRS = re.compile(r'"([A-Za-z_:\-]{2,})"')


def mutants():
    for f in FILES:
        if ONLY and ONLY not in f:
            continue
        ls = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(ls):
            if l.strip() in ("#[cfg(test)]",):
                break
            if not (LO <= i + 1 <= HI):
                continue
            s = l.split("//")[0] if not re.search(r'"[^"]*//', l) else l
            if not s.strip() or s.strip().startswith(("use ", "#", "pub use", "pub mod", "mod ", "///")):
                continue
            seen = set()
            for pat, rep in (SAME if REF else RULES):
                for m in re.finditer(pat, s):
                    n = s[:m.start()] + m.expand(rep) + s[m.end():]
                    if n != s and n not in seen:
                        seen.add(n)
                        yield f, i, l, n
            if not REF and STMT.match(s):
                yield f, i, l, ""
            if not REF and "Err(" not in s and "panic" not in s:
                for m in STRS.finditer(s):
                    yield f, i, l, s[:m.start(1)] + m.group(1)[:-1] + "x" + s[m.end(1):]


slots = queue.Queue()
for k in range(J):
    slots.put(k)
lock = threading.Lock()


def run(c):
    f, i, l, n = c
    k = slots.get()
    try:
        root = "%s/%d" % (BAT, k)
        r = root + "/krates"
        if not os.path.isdir(r):
            os.makedirs(r)
            subprocess.run("cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s" % r, shell=True, check=True)
        subprocess.run("cp -r /repo/src %s/" % r, shell=True, check=True)
        ls = open("/repo/" + f).read().split("\n")
        ls[i] = n
        open(os.path.join(r, f), "w").write("\n".join(ls))
        props = PROPS.get(f, "").split()
        if f == "src/builder.rs" and i < 190:
            props = ["C26"]
        x = subprocess.run("cargo check --offline --quiet --all-features 2>&1 | grep -q '^error'", shell=True, cwd=r, env=dict(os.environ, CARGO_TARGET_DIR=root + "/target"))
        if x.returncode == 0:
            return
        env = dict(os.environ, KVERIF_REPO=r, KVERIF_BUILD=root + "/build")
        x = subprocess.run([sys.executable, H + "/tools/runall.py"] + props, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = x.stdout.strip().splitlines()[-1] if x.stdout.strip() else ""
        m = re.search(r"violated: (.*), undecided: (.*)$", last)
        with lock:
            if not m:
                print("??       %s:%d  %s  =>  %s   %s" % (f, i + 1, l.strip(), n.strip(), last[:200]))
            elif REF:
                print("%s %s:%d  %s  =>  %s   violated: %s undecided: %s" % ("quiet   " if m.group(1) == "-" else "ALARM   ", f, i + 1, l.strip()[:90], n.strip()[:110], m.group(1), m.group(2)))
                if m.group(1) != "-":
                    print("\n".join("          " + x_[:300] for x_ in x.stdout.splitlines() if x_.startswith("VIOL")))
            elif m.group(1) == "-":
                print("SURVIVED %s:%d  %s  =>  %s   undecided: %s" % (f, i + 1, l.strip(), n.strip(), m.group(2)))
            else:
                print("ok       %s:%d  %s  =>  %s   %s" % (f, i + 1, l.strip()[:60], n.strip()[:60], m.group(1)))
            sys.stdout.flush()
    finally:
        slots.put(k)


todo = list(mutants())[int(os.environ.get("OFF", "0"))::int(os.environ.get("STRIDE", "1"))]
print("%d mutants" % len(todo), flush=True)
with ThreadPoolExecutor(J) as ex:
    list(ex.map(run, todo))
