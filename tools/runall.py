#!/usr/bin/env python3
"""runall.py [C..]: all registered rules in one process on $KVERIF_REPO; prints only violations and undecided obligations (development aid)"""
import os, sys, threading, traceback
if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of every set in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000); threading.stack_size(512 * 1024 * 1024)
from kv import ctx
from kv.lib import A, Undecided
rc = 0


def go():
    global rc
    ctx.load_rules()
    only = [x for x in sys.argv[1:] if x[0] == "C"]
    cfgs = dict(ctx.CONFIGS)
    if os.environ.get("KVERIF_CFG"):
        cfgs = {k: v for k, v in cfgs.items() if k == os.environ["KVERIF_CFG"]}
    bad, und, n = {}, {}, 0
    for cfg, fl in cfgs.items():
        rep0 = ctx.Report("x")
        try:
            a = A(ctx.dump(cfg, fl), cfg, rep0)
        except ctx.AnalysisError as ex:
            print("DOES NOT COMPILE", str(ex)[-1500:])
            rc = 2
            return
        for pid in sorted(ctx.RULES):
            if only and pid not in only:
                continue
            rep = ctx.Report(pid)
            rep.cfg = cfg
            ctx.CURRENT = rep
            for f, kw in ctx.RULES[pid]:
                if kw.get("cfg") and cfg not in kw["cfg"]:
                    continue
                try:
                    f(a, rep)
                except Undecided as ex:
                    rep.unk(f.__name__, ex.site, ex.why)
                except Exception:
                    rep.unk(f.__name__, "engine", traceback.format_exc()[-400:])
            kf = {k["key"] for k in ctx.known() if k.get("property") == pid and k.get("status") == "finding"}
            for rl, site, st, det, c in rep.obs:
                n += 1
                if st == "violated" and "%s@%s" % (rl, site) not in kf:
                    bad.setdefault((pid, rl, site), det)
                elif st == "undecided":
                    und.setdefault((pid, rl, site), det)
    for (p, r, s), d in sorted(und.items()):
        print("undecided %s %s@%s: %s" % (p, r, s, d[:int(os.environ.get("W", "200"))]))
    for (p, r, s), d in sorted(bad.items()):
        print("VIOLATED %s %s@%s: %s" % (p, r, s, d[:int(os.environ.get("W", "200"))]))
    print("%d obligations, violated: %s, undecided: %s" % (n, " ".join(sorted({k[0] for k in bad})) or "-", " ".join(sorted({k[0] for k in und})) or "-"))
    rc = 1 if bad else 0


th = threading.Thread(target=go)
th.start()
th.join()
sys.exit(rc)
