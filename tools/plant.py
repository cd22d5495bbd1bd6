#!/usr/bin/env python3
"""plant.py BUGS.py [id...]: confirm planted changes in a scratch copy of /repo and keep them under seeded/.

BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new[, count])], demo, needs, breaks)].
A change is kept when it applies, the stable tests pass with it, and its demo exits 0 without and
nonzero with it. Nothing here touches /repo."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"
exec env JAX_PLATFORMS=cpu JAX_ENABLE_X64=%s PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" /opt/venv/bin/python "$D/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def one(b):
    base = "/tmp/plant-%s" % b["id"]
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for e in b["edits"]:
            p = os.path.join(repo, e[0])
            s = open(p).read()
            n = s.count(e[1])
            if n != (e[3] if len(e) > 3 else 1):
                return b["id"], "edit matches %d times: %s" % (n, e[1][:60])
            s = s.replace(e[1], e[2])
            open(p, "w").write(s)
        d = base + "/out"
        os.makedirs(d)
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH % b.get("x64", "1"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)
        if r0.returncode != 0:
            return b["id"], "demo fails on the unchanged tree:\n" + r0.stdout.decode()[-1500:]
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)
        if r1.returncode == 0:
            return b["id"], "demo passes with the change:\n" + r1.stdout.decode()[-800:]
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "4", "--timeout=120"],
                           cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        out = t.stdout.decode()
        if " failed" in out or " error" in out or "188 passed" not in out:
            return b["id"], "tests: " + out[-1200:]
        dst = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return b["id"], "KEPT"
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(one, bugs):
            print("%-28s %s" % (i, r), flush=True)


main()
