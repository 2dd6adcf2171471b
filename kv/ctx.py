"""Running a rule: dump of the current tree, engine runs, obligations, verdicts and evidence."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KVERIF_REPO", "/repo")
BUILD = os.environ.get("KVERIF_BUILD", os.path.join(HERE, "build"))

CONFIGS = {"default": [], "all-features": ["--all-features"]}
THOROUGH = {"serialize": ["--features", "serialize"], "targets": ["--features", "targets"]}


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver():
    exe = os.path.join(BUILD, "kdriver")
    src = os.path.join(HERE, "driver/src/main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(["rustc", "+nightly", "--edition", "2021", "-o", exe + ".tmp", src])
        if r.returncode:
            raise AnalysisError("driver does not build:\n" + r.stdout)
        os.rename(exe + ".tmp", exe)
    return exe


def tree_stamp():
    """content of everything the analysed build reads in /repo"""
    import hashlib
    h = hashlib.sha256()
    fs = ["Cargo.toml", "Cargo.lock"]
    for d, _, names in sorted(os.walk(os.path.join(REPO, "src"))):
        fs += [os.path.relpath(os.path.join(d, n), REPO) for n in sorted(names)]
    for f in fs:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(HERE, "driver/src/main.rs"), "rb").read())
    return h.hexdigest()[:24]


def dump(cfg, flags):
    """THIR dump of /repo's current tree in one feature configuration"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        out = os.path.join(BUILD, "dump-%s-%s.json" % (cfg, tree_stamp()))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith("dump-%s-" % cfg):
                os.unlink(os.path.join(BUILD, f))
        tgt = os.path.join(BUILD, "t")
        # cargo's freshness check would skip the wrapper on a warm target directory
        for base in ("debug/.fingerprint", "debug/build"):
            d = os.path.join(tgt, base)
            for n in os.listdir(d) if os.path.isdir(d) else []:
                if n == "krates" or re.match(r"krates-[0-9a-f]{16}$", n):
                    shutil.rmtree(os.path.join(d, n))
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
        env.update(KVERIF_CRATE="krates", KVERIF_OUT=out + ".tmp", RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt)
        env.pop("RUSTFLAGS", None)
        r = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--locked"] + flags, cwd=REPO, env=env)
        if r.returncode or not os.path.exists(out + ".tmp"):
            raise AnalysisError("the tree does not compile under the analysis driver:\n" + r.stdout[-4000:])
        os.rename(out + ".tmp", out)
        return out


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []           # (rule, site, status, detail, config)
        self.functions = set()
        self.cfg = ""
        self.assumptions = []

    def add(self, rule, site, status, detail=""):
        self.obs.append((rule, site, status, detail, self.cfg))

    def ok(self, rule, site, detail=""):
        self.add(rule, site, "holds", detail)

    def bad(self, rule, site, detail=""):
        """violation; its key is rule@site and has no line numbers"""
        self.add(rule, site, "violated", detail)

    def unk(self, rule, site, detail=""):
        self.add(rule, site, "undecided", detail)

    def check(self, cond, rule, site, detail=""):
        (self.ok if cond else self.bad)(rule, site, detail)
        return cond


class Part:
    """a report that takes only some of the obligations of a rule another property has too"""

    def __init__(self, rep, *names):
        self._rep, self._names = rep, names

    def __getattr__(self, k):
        return getattr(self._rep, k)

    def ok(self, rule, site, detail=""):
        if rule in self._names:
            self._rep.ok(rule, site, detail)

    def bad(self, rule, site, detail=""):
        if rule in self._names:
            self._rep.bad(rule, site, detail)

    def unk(self, rule, site, detail=""):
        if rule in self._names:
            self._rep.unk(rule, site, detail)

    def check(self, cond, rule, site, detail=""):
        (self.ok if cond else self.bad)(rule, site, detail)
        return cond


RULES = {}


def rule(pid, **kw):
    def deco(f):
        RULES.setdefault(pid, []).append((f, kw))
        return f
    return deco


def load_rules():
    import importlib
    d = os.path.join(HERE, "kv/rules")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("kv.rules." + f[:-3])


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid, tier):
    from .lib import A, Undecided
    t0 = time.time()
    load_rules()
    rep = Report(pid)
    globals()["CURRENT"] = rep
    cfgs = dict(CONFIGS)
    if tier == "thorough":
        cfgs.update(THOROUGH)
    sizes = {}
    only = os.environ.get("KVERIF_CFG")
    for cfg, flags in cfgs.items():
        if only and cfg != only:
            continue
        rep.cfg = cfg
        a = A(dump(cfg, flags), cfg, rep)
        sizes[cfg] = len(a.p.bodies)
        for f, kw in RULES[pid]:
            if kw.get("cfg") and cfg not in kw["cfg"]:
                continue
            try:
                f(a, rep)
            except Undecided as ex:
                rep.unk(f.__name__, ex.site, ex.why)
            except RecursionError:
                rep.unk(f.__name__, "engine", "recursion limit")
            except Exception:
                if os.environ.get("KVERIF_DEBUG"):
                    traceback.print_exc()
                rep.unk(f.__name__, "engine", traceback.format_exc()[-600:])
        rep.functions |= a.analysed
    return finish(rep, tier, time.time() - t0, sizes)


def finish(rep, tier, wall, sizes):
    pid = rep.pid
    kf = {k["key"]: k for k in known() if k.get("property") == pid and k.get("status") == "finding"}
    viol, fnd, und, held = {}, {}, {}, 0
    for rl, site, status, detail, cfg in rep.obs:
        key = "%s@%s" % (rl, site)
        if status == "holds":
            held += 1
        elif status == "undecided":
            und.setdefault(key, "[%s] %s" % (cfg, detail))
        elif key in kf:
            fnd.setdefault(key, detail)
        else:
            viol.setdefault(key, "[%s] %s" % (cfg, detail))
    n = len(rep.obs)
    if n == 0:
        viol["no-obligations@" + pid] = "no rule instance was found: the anchors of this property are gone"
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-checked program (THIR) of /repo's current tree, nothing executed: the named functions are turned "
                           "into canonical value terms with path guards and each obligation compares them with the property's rule.",
            "bodies_in_program": sizes,
            "functions_evaluated": sorted(rep.functions),
            "obligations": n, "discharged": held,
            "undecided": [{"obligation": k, "reason": v[:400]} for k, v in sorted(und.items())],
            "known_findings": [{"obligation": k, "detail": v[:400]} for k, v in sorted(fnd.items())],
            "obligation_list": sorted({"%s@%s [%s] %s" % (r, s, c, x) for r, s, x, d, c in rep.obs}),
        },
        "assumptions": rep.assumptions + [
            "std, petgraph, semver, serde and cfg-expr behave as documented (kv/stdlib.py models them)"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(fnd.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf[k].get("what", v)))
    for k, v in sorted(und.items()):
        print("undecided: %s: %s" % (k, v[:600]))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, v in sorted(viol.items()):
                f.write("%s\n    %s\n" % (k, v))
        for k, v in sorted(viol.items()):
            print("violated: %s: %s" % (k, v[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, HERE)))
        return 1
    print("%s: %d obligations, %d hold, %d undecided, %d known findings (%.1fs)" % (pid, n, held, len(und), len(fnd), wall))
    return 0
