#!/usr/bin/env python3
"""battery.py <cases.py> [name...]: CASES = [dict(n=name, p=property or None (behaviour is kept), e=[(file, old, new)])].
Applies each case to a scratch copy of /repo and runs every rule on it."""
import os, re, runpy, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASES = runpy.run_path(sys.argv[1])["CASES"]
ARGS = [x for x in sys.argv[2:] if not x.startswith("--")]
PROPS = [x[2:] for x in sys.argv[2:] if x.startswith("--C")]
import queue
slots = queue.Queue()
for k in range(int(os.environ.get("J", "5"))):
    slots.put(k)


def run(c):
    k = slots.get()
    try:
        root = "%s/%d" % (os.environ.get("BAT", "/tmp/bat"), k)
        os.makedirs(root, exist_ok=True)
        r = root + "/krates"
        subprocess.run("rsync -a --delete --exclude target --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s)" % (r, r, r, r), shell=True, check=True)
        for f, o, n in c["e"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(o) != 1:
                return c, "EDIT", "%s: %d matches for %r" % (f, s.count(o), o[:80])
            open(p, "w").write(s.replace(o, n))
        env = dict(os.environ, KVERIF_REPO=r, KVERIF_BUILD=root + "/build")
        x = subprocess.run([sys.executable, H + "/tools/runall.py"] + PROPS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return c, x.returncode, x.stdout
    finally:
        slots.put(k)


with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
    todo = [c for c in CASES if not ARGS or any(a in c["n"] for a in ARGS)]
    for c, rc, out in ex.map(run, todo):
        last = out.strip().splitlines()[-1] if out.strip() else ""
        m = re.search(r"violated: (.*), undecided: (.*)$", last)
        if rc in ("EDIT", 2) or not m:
            print("??    %-40s %s" % (c["n"], out[-600:]))
            continue
        v = m.group(1).split() if m.group(1) != "-" else []
        if c["p"] is None:
            st = "ALARM" if v else "quiet"
        else:
            st = "CAUGHT" if c["p"] in v else "caught" if v else "MISSED"
        print("%-6s %-40s %s violated: %s undecided: %s" % (st, c["n"], c["p"] or "", m.group(1), m.group(2)))
        if st in ("ALARM", "MISSED") or os.environ.get("V"):
            for l in out.splitlines()[:-1]:
                print("          " + l[:300])
        sys.stdout.flush()
