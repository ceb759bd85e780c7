#!/usr/bin/env python3
"""Makes and validates a planted bug in scratch copies of /repo.

    seed.py SPEC.py            SPEC defines id, prop, edits=[(file, old, new)], demo (python text), needs, breaks
    seed.py --recheck ID...    runs the checks only

Writes /verif/seeded/<id>/ and prints whether demo, tests and checks behave.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=${OMP_NUM_THREADS:-2}
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="2", MKL_NUM_THREADS="1")


def sh(cmd, cwd=None, env=None, t=1200):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)


def copy(dst):
    sh(["cp", "-a", "/repo", dst])


def build(d):
    s = open("/opt/vp/build.sh").read().replace("cd /repo", f"cd {d}")
    p = os.path.join(d, "build", "b.sh")
    open(p, "w").write(s)
    r = sh(["bash", p], cwd=d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(d):
    out = tempfile.mktemp(suffix=".xml")
    env = dict(ENV, PYTHONPATH=f"{d}:/opt/vp/plugins", HOME="/root")
    sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--no-cov", "--timeout=300", "-n", "8", "--dist",
        "worksteal", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={out}"], cwd=d, env=env)
    js = tempfile.mktemp(suffix=".json")
    sh(["python3", "/opt/vp/results.py", js, f"junit:{out}"], cwd=d)
    got = set(json.load(open(js))["passed"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.remove(js), os.remove(out)
    return sorted(want - got)


def check(d, prop, tier="quick"):
    r = sh(["python3", os.path.join(V, "check.py"), "--property", prop, "--tier", tier, "--repo", d, "-v"], cwd=V, t=900)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("/", "philtorch", "VIOL", "ERROR"))], (r.stdout + r.stderr)


def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            d = f"/tmp/seed-{i}"
            shutil.rmtree(d, ignore_errors=True)
            copy(d)
            r = sh(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=d)
            prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
            rc, viol, out = check(d, prop)
            print(i, prop, "CAUGHT" if rc == 1 else f"missed rc={rc}", r.stderr[:100], viol[:1], flush=True)
            shutil.rmtree(d, ignore_errors=True)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    fast = "--fast" in sys.argv
    d = f"/tmp/seed-{ns['id']}"
    shutil.rmtree(d, ignore_errors=True)
    copy(d)
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=d).stdout
        o = os.path.join(V, "seeded", ns["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(DEMO)
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(ns["demo"].lstrip("\n"))
        json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(o + "/meta.json", "w"), indent=1)
        if any("csrc" in f for f, *_ in ns["edits"]):
            print("build", build(d))
        a = sh(["bash", o + "/demo.sh"], cwd="/repo")
        b = sh(["bash", o + "/demo.sh"], cwd=d)
        print(ns["id"], "demo original rc", a.returncode, (a.stdout + a.stderr)[-200:].replace("\n", " | "), "; patched rc", b.returncode, (b.stdout + b.stderr)[-300:].replace("\n", " | "))
        if not fast:
            miss = tests(d)
            print("tests broken:", len(miss), miss[:2])
        rc, viol, out = check(d, ns["prop"])
        print("check", ns["prop"], "CAUGHT" if rc == 1 else f"missed rc={rc}", *viol[:2], out[-300:] if rc != 1 else "", sep="\n   ")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
