#!/usr/bin/env python3
"""mkbug.py <spec.py>: spec defines BUGS = [dict(id, prop, edits=[(file, old, new)], main, needs, breaks)]"""
import json, os, runpy, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
import seed
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    seed.reset()
    for f, o, n in b["edits"]:
        p = os.path.join(seed.S, f)
        s = open(p).read()
        assert s.count(o) == 1, (b["id"], f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    d = os.path.join(H, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(seed.sh("git diff").stdout)
    import shutil
    shutil.copy(H + "/tools/demo/demo.sh", d); shutil.copy(H + "/tools/demo/md.rs", d)
    if b.get("features"):
        s = open(d + "/demo.sh").read().replace("${DEMO_FEATURES:-}", ", ".join('\\"%s\\"' % x for x in b["features"]))
        open(d + "/demo.sh", "w").write(s.replace('\\"', '"'))
    open(d + "/main.rs", "w").write(b["main"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    seed.reset()
    print("made", b["id"])
