#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current source"""
import os
import signal
import sys
import threading

if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of every set in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def go(res):
    from kv import ctx
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        res.append(ctx.main(pid, tier))
    except BaseException:
        import traceback
        traceback.print_exc()


res = []
th = threading.Thread(target=go, args=(res,), daemon=True)
th.start()
th.join(780)
if not res and th.is_alive():
    # the analysis did not finish: report what was decided so far, with the rest undecided
    from kv import ctx
    ctx.CURRENT.unk("analysis", "time", "the analysis did not finish within its time limit")
    res.append(ctx.finish(ctx.CURRENT, "quick", 780, {}))
sys.stdout.flush()
if not res:
    print("no answer")
    os._exit(2)
os._exit(res[0])
