"""Builds /repo's working tree (with the stand-ins of shim/) and the harnesses."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
ROOT = os.path.join(VERIF, "build")

ABSL = ("flags_parse flags_usage flags_usage_internal flags_internal flags_marshalling "
        "flags_reflection flags_config flags_program_name flags_private_handle_accessor "
        "flags_commandlineflag flags_commandlineflag_internal str_format_internal time "
        "time_zone strings strings_internal throw_delegate base raw_logging_internal "
        "log_severity int128 synchronization hash city low_level_hash raw_hash_set").split()
LIBS = ["-labsl_" + x for x in ABSL] + ["/usr/lib/x86_64-linux-gnu/libre2.so.10"]

VARIANTS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "ub": ["-O1", "-g1", "-fno-omit-frame-pointer",
           "-fsanitize=address,undefined,float-cast-overflow",
           "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "fast": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "cli": ["-O1"],
}
EXC = {"parser.cc", "parser.tab.cc", "lexer.yy.cc"}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/stl-to-ps/*") + glob.glob(VERIF + "/shim/**/*", recursive=True)
                   + glob.glob(VERIF + "/mc/*") + glob.glob(VERIF + "/pychecks/*.c") + [VERIF + "/build.py"])
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def base():
    """The build directory of the current working tree."""
    d = os.path.join(ROOT, tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    # keep a few trees only
    ds = sorted((x for x in glob.glob(ROOT + "/*") if os.path.isdir(x)),
                key=os.path.getmtime, reverse=True)
    for x in ds[4:]:
        shutil.rmtree(x, ignore_errors=True)
    return d


def gen(d):
    g = os.path.join(d, "gen")
    if os.path.exists(g + "/ok"):
        return g
    t = tempfile.mkdtemp(dir=d)
    os.makedirs(t + "/stl-to-ps")
    sh(["bison", "--defines=%s/stl-to-ps/parser.tab.h" % t, "-o", t + "/stl-to-ps/parser.tab.cc",
        REPO + "/stl-to-ps/parser.y"])
    sh(["flex", "--header-file=%s/stl-to-ps/lexer.yy.h" % t, "-o", t + "/stl-to-ps/lexer.yy.cc",
        REPO + "/stl-to-ps/lexer.l"])
    open(t + "/ok", "w").close()
    try:
        os.rename(t, g)
    except OSError:
        shutil.rmtree(t)
    return g


def flags(g, variant):
    return ["-std=c++17", "-w", "-pthread", "-I" + REPO, "-I" + g, "-I" + VERIF + "/shim",
            "-isystem", "/usr/include/eigen3", "-DEIGEN_INITIALIZE_MATRICES_BY_ZERO"] + VARIANTS[variant]


def lib_sources(g):
    s = [f for f in glob.glob(REPO + "/stl-to-ps/*.cc")
         if not f.endswith("_test.cc") and os.path.basename(f) not in ("test_main.cc", "stl-to-ps-main.cc")]
    return sorted(s) + [g + "/stl-to-ps/parser.tab.cc", g + "/stl-to-ps/lexer.yy.cc"]


def compile_all(d, g, variant, jobs):
    """jobs: list of (source, object, extra flags)."""
    def one(j):
        src, obj, extra = j
        if os.path.exists(obj):
            return
        t = obj + ".%d.tmp.o" % os.getpid()
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        sh(["g++"] + flags(g, variant) + extra + ["-c", src, "-o", t])
        os.rename(t, obj)
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(one, jobs))


def lib_jobs(d, g, variant):
    r = []
    for s in lib_sources(g):
        b = os.path.basename(s)
        r.append((s, "%s/%s/%s.o" % (d, variant, b[:-3]),
                  ["-fexceptions"] if b in EXC else ["-fno-exceptions"]))
    return r


def link(out, objs, variant, extra=()):
    t = out + ".%d.tmp" % os.getpid()
    sh(["g++"] + VARIANTS[variant] + ["-o", t] + objs + list(extra) + LIBS + ["-pthread", "-ldl"])
    os.rename(t, out)


def harness(names, variant):
    """Builds a harness of mc/<name>.cc files; returns the executable."""
    d = base()
    g = gen(d)
    out = "%s/%s/%s.bin" % (d, variant, names[0])
    if os.path.exists(out):
        return out
    jobs = lib_jobs(d, g, variant)
    mine = [("%s/mc/%s.cc" % (VERIF, n), "%s/%s/mc_%s.o" % (d, variant, n), ["-I" + VERIF + "/mc"])
            for n in list(names) + ["engine", "run", "psdoc", "model"]]
    compile_all(d, g, variant, mine + jobs)
    link(out, [j[1] for j in mine + jobs], variant)
    return out


def cli(variant="cli"):
    d = base()
    g = gen(d)
    out = "%s/%s/stl-to-ps" % (d, variant)
    if os.path.exists(out):
        return out
    jobs = lib_jobs(d, g, variant)
    jobs.append((REPO + "/stl-to-ps/stl-to-ps-main.cc", "%s/%s/stl-to-ps-main.o" % (d, variant),
                 ["-fno-exceptions"]))
    compile_all(d, g, variant, jobs)
    link(out, [j[1] for j in jobs], variant)
    return out


def preload(name):
    """A library of pychecks/ that checks preload."""
    d = base()
    out = d + "/" + name + ".so"
    if not os.path.exists(out):
        t = out + ".%d.tmp" % os.getpid()
        sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", t, VERIF + "/pychecks/" + name + ".c", "-ldl"])
        os.rename(t, out)
    return out


def psdump():
    """Prints what is on the pages of PostScript files as JSON."""
    d = base()
    out = d + "/psdump"
    if not os.path.exists(out):
        t = out + ".%d.tmp" % os.getpid()
        sh(["g++", "-std=c++17", "-O2", "-w", "-I" + VERIF + "/mc", "-o", t,
            VERIF + "/mc/psdump.cc", VERIF + "/mc/psdoc.cc"])
        os.rename(t, out)
    return out


def gtests():
    """The repository's own tests on top of the stand-ins: {name: executable}."""
    d = base()
    g = gen(d)
    jobs = lib_jobs(d, g, "cli")
    tests = sorted(glob.glob(REPO + "/stl-to-ps/*_test.cc"))
    tj = [(t, "%s/cli/%s.o" % (d, os.path.basename(t)[:-3]), []) for t in tests + [REPO + "/stl-to-ps/test_main.cc"]]
    compile_all(d, g, "cli", jobs + tj)
    r = {}
    main = tj[-1][1]
    for t in tj[:-1]:
        out = t[1][:-2]
        if not os.path.exists(out):
            m = [] if "parser_support_test" in out and False else [main]
            link(out, [t[1]] + m + [j[1] for j in jobs], "cli", ["-lgmock", "-lgtest"])
        r[os.path.basename(out)] = out
    return r


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["gtests"]:
        bad = 0
        for n, e in gtests().items():
            r = subprocess.run([e], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print(n, r.returncode, [l for l in r.stdout.splitlines() if "PASSED" in l or "FAILED" in l][:20])
            bad |= r.returncode
        sys.exit(1 if bad else 0)
    print(cli())
    print("%.1f s" % (time.time() - t))
