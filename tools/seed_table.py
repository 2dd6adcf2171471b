#!/usr/bin/env python3
"""seed_table.py: run each planted bug's own check on it (in a scratch copy) and write the table of DESIGN.md"""
import json, os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    x = subprocess.run([sys.executable, H + "/tools/seed.py", "test", i], stdout=subprocess.PIPE, text=True).stdout
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    r = json.loads(x[x.index("{"):x.rindex("}") + 1])
    v = [o.split(":")[1].strip() for o in r["out"] if o.startswith("violated")]
    rows.append("| %s | %s | %s |" % (i, m["property"], "%s: `%s`" % (", ".join(r["caught"]), v[0]) if r["caught"] else "missed (undecided)"))
    print(rows[-1], flush=True)
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
