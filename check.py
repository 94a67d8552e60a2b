#!/usr/bin/env python3
"""Runs one check: check.py <property> [--tier=quick|thorough] [--replay=choices]

Builds /repo's working tree, explores, prints VIOLATION / KNOWN-FINDING lines
and writes evidence/<property>.json.  Exit 0: held; 1: violated; 2: no answer.
"""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

VERIF = build.VERIF

# property -> (kind, what, variant)
CHECKS = {
    "C01": ("cc", ["c01"], "ub"),
    "C02": ("py", "c02", None),
    "C03": ("cc", ["c03"], "asan"),
    "C04": ("cc", ["c04"], "asan"),
    "C05": ("cc", ["c05"], "fast"),
    "C06": ("cc", ["c06"], "fast"),
    "C07": ("cc", ["c07"], "fast"),
    "C08": ("cc", ["c08"], "fast"),
    "C09": ("cc", ["c09"], "fast"),
    "C10": ("cc", ["c10"], "fast"),
    "C11": ("cc", ["c11"], "fast"),
    "C12": ("cc", ["c12"], "fast"),
    "C13": ("cc", ["c13"], "fast"),
    "C14": ("cc", ["c14"], "fast"),
    "C15": ("cc", ["c15"], "fast"),
    "C16": ("cc", ["c16"], "fast"),
    "C17": ("cc", ["c17"], "fast"),
    "C18": ("cc", ["c18"], "fast"),
    "C19": ("py", "c19", None),
    "C20": ("py", "c20", None),
    "C21": ("py", "c21", None),
    "C22": ("cc", ["c22"], "fast"),
    "C23": ("cc", ["c23"], "fast"),
    "C24": ("cc", ["c24"], "fast"),
}


def known(prop):
    """known-findings.tsv: property <tab> key <tab> what fails ('fixed:' lines suppress nothing)."""
    r = []
    p = os.path.join(VERIF, "known-findings.tsv")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            f = line.split("\t")
            if f[0] == prop:
                r.append((f[1], f[2]))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    extra = []
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
        elif a.startswith("--replay="):
            replay = a[9:]
        else:
            extra.append(a)
    kind, what, variant = CHECKS[prop]
    out = os.path.join(VERIF, "out")
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(out, exist_ok=True)
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    if replay is None and os.path.exists(evf):
        os.unlink(evf)
    scratch = tempfile.mkdtemp(prefix="mc-" + prop + "-")
    try:
        if kind == "cc":
            exe = build.harness(what, variant)
            kf = os.path.join(scratch, "known")
            with open(kf, "w", encoding="utf-8") as f:
                for k, t in known(prop):
                    f.write("%s\t%s\n" % (k, t))
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1"
            env["LC_ALL"] = "C"
            cmd = [exe, "--tier=" + tier, "--known=" + kf, "--scratch=" + scratch + "/s", "--out=" + out]
            if replay is None:
                cmd.append("--evidence=" + evf)
            else:
                cmd.append("--replay=" + replay)
            r = subprocess.run(cmd + extra, env=env)
            return r.returncode if r.returncode in (0, 1) else 2
        m = importlib.import_module("pychecks." + what)
        return m.run(prop, tier=tier, scratch=scratch, out=out,
                     evidence=evf if replay is None else None, known=dict(known(prop)), replay=replay)
    except build.BuildError as e:
        print("build failed:\n%s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
