#!/usr/bin/env python3
"""Makes seeded/<id>/ from tools/seedspecs.py and confirms each: seed.py [id...]

A spec: id, property, edits [(file, old, new)], needs, breaks, demo (the rest of demo.py).
Kept only if the patched tree builds, passes the repository's tests (on the
stand-ins), and the demonstration passes without and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import seedspecs  # noqa

COPY = ["lib.py", "demo.sh"]


def demo(d, repo):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=300)


def one(s):
    d = os.path.join(V, "seeded", s["id"])
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = t + "/repo"
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            x = open(p).read()
            if x.count(old) < 1:
                return "no match in %s: %s" % (f, old[:60])
            if x.count(old) > 1 and "@first" not in s:
                return "several matches in %s: %s" % (f, old[:60])
            open(p, "w").write(x.replace(old, new, 1))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        for f in COPY:
            shutil.copy(V + "/tools/seedlib/" + f, d)
        shutil.copytree(V + "/shim", d + "/shim")
        open(d + "/demo.py", "w").write("from lib import *\n\n" + s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        g = subprocess.run([sys.executable, V + "/build.py", "gtests"], env=dict(os.environ, MC_REPO=w),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if g.returncode:
            return "tests fail:\n" + g.stdout[-1500:]
        a = demo(d, "/repo")
        if a.returncode:
            return "demo fails on the unchanged tree:\n" + a.stdout[-1500:]
        b = demo(d, w)
        if not b.returncode:
            return "demo passes with the patch:\n" + b.stdout[-1500:]
        return "ok: " + b.stdout.strip().split("\n")[-1][:150]
    finally:
        shutil.rmtree(t, ignore_errors=True)


for s in seedspecs.SPECS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    print(s["id"], one(s), flush=True)
