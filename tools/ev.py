#!/usr/bin/env python3
"""ev.py <path substring>...: print the value term and the events of functions (development aid)"""
import glob, os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000); threading.stack_size(512 * 1024 * 1024)
from kv import ctx
from kv.lib import *


def go():
    d = ctx.dump(os.environ.get("CFG", "default"), dict(ctx.CONFIGS, **ctx.THOROUGH)[os.environ.get("CFG", "default")])
    a = A(d, "x", ctx.Report("x"))
    depth = int(os.environ.get("D", "8"))
    for b in a.p.bodies:
        if "{closure" in b["path"] and not os.environ.get("CL"):
            continue
        full = "%s %s %s" % (b["path"], b.get("self"), b.get("itraitfull"))
        if not all(x in full for x in sys.argv[1:]):
            continue
        print("==", full)
        try:
            r = a.run(b, opaque=os.environ.get("OPQ", "").split() or ())
        except Undecided as ex:
            print("  UNDECIDED", ex)
            continue
        print("  value:", show(r.v, depth))
        print("  taints:", taints(r.v))
        for i in range(3):
            h = r.heap(i)
            if h is not sym(i):
                print("  *p%d := %s" % (i, show(h, depth)))
        if os.environ.get("EV"):
            for e in r.en.events:
                print("   ", e.kind, e)


th = threading.Thread(target=go); th.start(); th.join()
