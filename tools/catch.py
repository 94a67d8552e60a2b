#!/usr/bin/env python3
"""Runs each planted bug's check against it: catch.py [id...] (other checks: id=C01,C02)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
where = {i: "%s/%s/%s" % (V, k, i) for k in ("seeded-extra", "seeded") for i in os.listdir(V + "/" + k)}
ids = sys.argv[1:] or sorted(where)
for i in ids:
    i, _, props = i.partition("=")
    d = where[i]
    props = props.split(",") if props else [json.load(open(d + "/meta.json"))["property"]]
    t = tempfile.mkdtemp(prefix="catch-")
    shutil.copytree("/repo", t + "/repo", symlinks=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t + "/repo", check=True)
    for p in props:
        t0 = time.time()
        r = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, MC_REPO=t + "/repo", MC_EVIDENCE=t), cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        print("%-18s %s rc=%d %5.0fs %s" % (i, p, r.returncode, time.time() - t0, "caught " + v[0][:110] if r.returncode == 1 and v else "MISSED"), flush=True)
    shutil.rmtree(t, ignore_errors=True)
