"""What the demonstrations share: building the program and looking at its output."""
import concurrent.futures as cf
import glob
import math
import os
import re
import subprocess
import sys

REPO, HERE, T = sys.argv[1:4]
ABSL = ("flags_parse flags_usage flags_usage_internal flags_internal flags_marshalling flags_reflection flags_config "
        "flags_program_name flags_private_handle_accessor flags_commandlineflag flags_commandlineflag_internal "
        "str_format_internal time time_zone strings strings_internal throw_delegate base raw_logging_internal log_severity "
        "int128 synchronization hash city low_level_hash raw_hash_set").split()
LIBS = ["-labsl_" + x for x in ABSL] + ["/usr/lib/x86_64-linux-gnu/libre2.so.10", "-pthread"]
FLAGS = ["-std=c++17", "-w", "-O1", "-pthread", "-I" + REPO, "-I" + T + "/gen", "-I" + HERE + "/shim", "-isystem",
         "/usr/include/eigen3", "-DEIGEN_INITIALIZE_MATRICES_BY_ZERO"]


def sh(*cmd):
    subprocess.run(list(cmd), check=True)


def build(extra_flags=(), main=None):
    """The program, or `main` linked with the library."""
    g = T + "/gen/stl-to-ps"
    os.makedirs(g, exist_ok=True)
    sh("bison", "--defines=" + g + "/parser.tab.h", "-o", g + "/parser.tab.cc", REPO + "/stl-to-ps/parser.y")
    sh("flex", "--header-file=" + g + "/lexer.yy.h", "-o", g + "/lexer.yy.cc", REPO + "/stl-to-ps/lexer.l")
    src = [f for f in glob.glob(REPO + "/stl-to-ps/*.cc")
           if not f.endswith("_test.cc") and os.path.basename(f) not in ("test_main.cc", "stl-to-ps-main.cc")]
    src += [g + "/parser.tab.cc", g + "/lexer.yy.cc", main or REPO + "/stl-to-ps/stl-to-ps-main.cc"]
    objs = [T + "/%d.o" % i for i in range(len(src))]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: sh("g++", *FLAGS, *extra_flags, "-c", x[0], "-o", x[1]), zip(src, objs)))
    sh("g++", *extra_flags, "-o", T + "/exe", *objs, *LIBS)
    return T + "/exe"


class Run:
    def __init__(self, rc, err, out):
        self.rc, self.err, self.out = rc, err, out

    def pages(self):
        t = (self.out or b"").decode("latin-1")
        t = t.split("% End File Header", 1)[-1]
        return [Page(p) for p in t.split("%%%%%%%%% Start of page")[1:]]


class Page:
    def __init__(self, t):
        n = r"(\S+)"
        self.lines = [tuple(map(float, m)) for m in re.findall(r"newpath %s %s moveto %s %s lineto stroke" % (n, n, n, n), t)]
        self.arcs = [tuple(map(float, m)) for m in re.findall(r"newpath %s %s %s %s %s arc" % (n, n, n, n, n), t)]
        self.texts = [(float(m[0]), float(m[1]), m[2]) for m in
                      re.findall(r"(?s)newpath %s %s moveto \(((?:[^\\()]|\\.)*)\)" % (n, n), t)]
        self.source = t

    def has_line(self, x1, y1, x2, y2, tol=.02):
        a, b = (x1, y1, x2, y2), (x2, y2, x1, y1)
        return any(max(abs(p - q) for p, q in zip(l, c)) < tol for l in self.lines for c in (a, b))


def run(exe, script, models=None, args=(), cwd=None, before=None, timeout=60):
    """Runs the program on a script in a scratch directory."""
    d = cwd or T + "/run"
    os.makedirs(d, exist_ok=True)
    for n, t in dict(models or {}, **{"script": script}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "wb") as f:
            f.write(t.encode("latin-1"))
    o = os.path.join(d, "out.ps")
    if os.path.exists(o):
        os.unlink(o)
    if before is not None:
        with open(o, "wb") as f:
            f.write(before)
    r = subprocess.run([exe, "--script=script", "--output=out.ps"] + list(args), cwd=d, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = open(o, "rb").read() if os.path.exists(o) else None
    return Run(r.returncode, r.stdout.decode("latin-1"), out)


def stl(facets, normals=True, scale=1.0):
    s = "solid m\n"
    for f in facets:
        a, b, c = f
        u = [b[i] - a[i] for i in range(3)]
        v = [c[i] - a[i] for i in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        l = math.sqrt(sum(x * x for x in n)) or 1
        s += "facet normal %s\n outer loop\n" % " ".join("%.9f" % (x / l * scale) for x in n)
        for p in f:
            s += "  vertex %s\n" % " ".join("%.9g" % x for x in p)
        s += " endloop\nendfacet\n"
    return s + "endsolid m\n"


def box(a, b):
    """The facets of the box between two corners."""
    p = [tuple((b if k >> i & 1 else a)[i] for i in range(3)) for k in range(8)]
    q = [(0, 2, 3), (0, 3, 1), (4, 5, 7), (4, 7, 6), (0, 1, 5), (0, 5, 4), (2, 6, 7), (2, 7, 3), (0, 4, 6), (0, 6, 2), (1, 3, 7), (1, 7, 5)]
    return [tuple(p[i] for i in f) for f in q]


def prism(n, r, x, y, z0, z1):
    p = [(x + r * math.cos(2 * math.pi * i / n), y + r * math.sin(2 * math.pi * i / n)) for i in range(n)]
    f = []
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        f += [(a + (z0,), b + (z0,), b + (z1,)), (a + (z0,), b + (z1,), a + (z1,)), ((x, y, z1), a + (z1,), b + (z1,)),
              ((x, y, z0), b + (z0,), a + (z0,))]
    return f


def ok(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)
