#!/usr/bin/env python3
"""try_seeded.py [id...]: run the check of its property against every planted change, in a scratch copy."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    base = "/tmp/try-" + i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
        subprocess.run(["git", "-C", base + "/repo", "apply", "%s/seeded/%s/patch.diff" % (HERE, i)], check=True)
        t = time.time()
        for prop in os.environ.get("PROPS", meta["property"]).split(","):
            r = subprocess.run([sys.executable, HERE + "/run.py", prop, os.environ.get("TIER", "quick")], cwd=HERE,
                               env=dict(os.environ, VP_REPO=base + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            hit = "VIOLATION property=%s" % prop in out
            print("%-28s %s %s rc=%d %.0fs  %s" % (i, prop, "CAUGHT" if hit else "missed", r.returncode, time.time() - t,
                                               out.strip().splitlines()[0][:230] if out.strip() else ""), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
