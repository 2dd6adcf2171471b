#!/usr/bin/env python3
"""seed.py new <id> <property>     take the diff of /tmp/seedrepo as a new planted bug (demo from tools/demo, main.rs to be written)
   seed.py test <id>...            confirm: applies, builds, tests pass, demo 0 without / nonzero with; then run the checks on it"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
TENV = """export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never INSTA_UPDATE=no CARGO_TARGET_DIR=/tmp/seedrepo/target
W=/tmp/seedtest/krates; rm -rf /tmp/seedtest; mkdir -p $W; find /tmp/seedrepo -mindepth 1 -maxdepth 1 ! -name .git ! -name target -exec cp -r -t $W {} +
for m in package-rename chained-weak/app; do cp --remove-destination /opt/vp/locks/$m/Cargo.lock $W/tests/$m/; done; cd $W; """

def sh(c, cwd=S, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def reset():
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    sh("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git checkout -q -- .")

def test(i, props):
    d = os.path.join(H, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    reset()
    r = {"id": i}
    if "--demo" in sys.argv:
        x = sh("bash %s/demo.sh" % d)
        r["clean"] = x.returncode
        if x.returncode:
            print(x.stdout[-1500:])
    x = sh("git apply %s/patch.diff" % d)
    if x.returncode:
        print(i, "does not apply", x.stdout); return
    try:
        if "--demo" in sys.argv:
            x = sh("bash %s/demo.sh" % d)
            r["bug"] = x.returncode
            r["msg"] = x.stdout[-300:]
        if "--tests" in sys.argv:
            f = set()
            for fl in ("", "--features targets"):
                x = sh(TENV + "cargo test --workspace --no-fail-fast --offline %s -- --test-threads 8" % fl)
                f |= {l.split()[1] for l in x.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")}
                if "error" in x.stdout and "could not compile" in x.stdout:
                    f.add("BUILD " + x.stdout[-1500:])
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
            r["failed"] = sorted(f - {"ignores_features_for_ignored_kinds"})
        env = dict(os.environ, KVERIF_REPO=S, KVERIF_BUILD="/tmp/seedbuild")
        want = props or [meta["property"]]
        if want == ["all"]:
            want = [c["property"] for c in json.load(open(H + "/MANIFEST.json"))["checks"]]
        caught = []
        for p in want:
            x = sh("python3 check.py %s" % p, cwd=H, env=env)
            if x.returncode == 1:
                caught.append(p)
            if p == meta["property"]:
                r["out"] = [l[:300] for l in x.stdout.splitlines() if l.startswith(("violated", "undecided"))][:3]
        r["caught"] = caught
        r["property"] = meta["property"]
    finally:
        sh("git checkout -q -- .")
    print(json.dumps(r, indent=1))

if __name__ == "__main__":
    if sys.argv[1] == "new":
        i, p = sys.argv[2:4]
        d = os.path.join(H, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        shutil.copy(H + "/tools/demo/demo.sh", d); shutil.copy(H + "/tools/demo/md.rs", d)
        if not os.path.exists(d + "/meta.json"):
            json.dump({"property": p, "needs": "", "what_it_breaks": ""}, open(d + "/meta.json", "w"), indent=1)
        reset()
    else:
        pr = [x for x in sys.argv[2:] if x.startswith("C") and len(x) == 3 or x == "all"]
        ids = [x for x in sys.argv[2:] if not x.startswith("--") and x not in pr]
        if ids == ["every"]:
            ids = sorted(os.listdir(H + "/seeded"))
        for i in ids:
            test(i, pr)
