#!/usr/bin/env python3
"""Development tool (no check uses it): validates planted bugs of /verif/seeded in a scratch copy of /repo, and runs checks on them.

  plant.py test ID...           patch applies, builds, passes the stable tests, demo is 0 without and nonzero with it
  plant.py demo ID...           only the two demo runs
  plant.py run ID [PROP...]     runs the quick check(s) (default: the property of meta.json) against the patched copy
"""
import json, os, subprocess, sys, shutil, fcntl
ROOT = "/tmp/plant" + os.environ.get("SLOT", "")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def slot(name):
    d = f"{ROOT}/{name}"
    if not os.path.exists(d + "/repo"):
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo")
        sh(f"mkdir -p {d}/vp && cp -a /opt/vp/build.sh /opt/vp/test.sh /opt/vp/results.py /opt/vp/ceras {d}/vp/")
        sh(f"sed -i 's#/repo#{d}/repo#g; s#/opt/vp#{d}/vp#g' {d}/vp/*.sh {d}/vp/*.py {d}/vp/ceras/*.py")
        sh(f"cp /opt/vp/*.txt /opt/vp/*.json {d}/vp/; sed -i 's#/opt/vp#{d}/vp#g' {d}/vp/ceras/*.py")
    r = sh(f"cd {d}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    assert r.returncode == 0, r.stderr
    return d
def demo(i, d):
    t = f"{ROOT}/demo_{i}"
    sh(f"mkdir -p {t}; cp -a {V}/seeded/{i}/. {t}/; cd {t} && find . -name '*.diff' -delete; find . -name meta.json -delete")
    # the demo names /repo only by its working directory
    r = sh(f"cd {d}/repo && timeout 300 bash {t}/demo.sh")
    shutil.rmtree(t)
    return r
def apply(i, d):
    r = sh(f"cd {d}/repo && git apply {V}/seeded/{i}/patch.diff")
    assert r.returncode == 0, r.stderr
def main():
    what, ids = sys.argv[1], sys.argv[2:]
    os.makedirs(ROOT, exist_ok=True)
    if what in ("test", "demo"):
        d = slot("t")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else json.load(open("/opt/vp/BASELINE.json"))["passed"])
        for i in ids:
            d = slot("t")
            a = demo(i, d)
            apply(i, d)
            b = demo(i, d)
            msg = f"{i}: demo clean={a.returncode} patched={b.returncode} [{(b.stdout + b.stderr).strip()[-200:]}]"
            if a.returncode: msg += " CLEAN OUT: " + (a.stdout + a.stderr)[-600:]
            if what == "test":
                sh(f"bash {d}/vp/build.sh")
                sh(f"bash {d}/vp/test.sh {d}/out.json")
                o = json.load(open(f"{d}/out.json"))
                miss = sorted(stable - set(o["passed"]))
                msg += f" tests: {len(o['passed'])} passed, missing stable: {miss}"
            print(msg, flush=True)
        sh(f"cd {d}/repo && git checkout -q -- .")
    else:
        i = ids[0]
        d = slot("r")
        apply(i, d)
        props = ids[1:] or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
        for p in props:
            r = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, CERAS_REPO=d + "/repo"), text=True, capture_output=True)
            print(i, p, "exit", r.returncode, "|", " | ".join(l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "rror" in l)[:500], flush=True)
        sh(f"cd {d}/repo && git checkout -q -- .")
main()
