"""C20: options select exactly what they say, and runs are reproducible."""
import itertools
import os
import re
import time

from . import common
from .common import PsDump, build, box, prog, read, stl, write

RULE = ("--script and --output each not given, empty, missing, good, in every spelling and order; --timestamp x --number_pages in every "
        "spelling x 8 names x 7 scripts of 0 to 12 pages; names, script and output paths of every length to 139 and some to 3900 (names: 100000); 12 times of day of a stopped clock; 11 of them in 5 (8) time zones with a clock that stands or goes on at each look; every sequence of up to 3 (4) runs "
        "of three scripts into one output holding nothing, or a short, longer or much longer file; 14 environments; every directive with and without "
        "each property, with every kind of value for it, under memcheck.")
ASSUMPTIONS = ["the hour of a date may run to 12 or 24",
               "names hold no line ends (C18 has those)"]

DATE = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")

DRAW = 'draw m { @[-2,1]; scale=1:2; view="Z+"; dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]); ' \
       'angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_point=[0,1,0]); }'
SCRIPTS = {
    "none": "",
    "load": 'load m="m.stl";\n',
    "one": 'load m="m.stl";\npage { name="one"; %s }\n' % DRAW,
    "blank": "page { }\n",
    "two": 'load m="m.stl";\nload k="k.stl";\npage { name="first"; %s text ["words"] { @[1,1]; } }\npage { draw k { @[2,1]; scale=1:1; '
           'view="X-"; } }\n' % DRAW,
    "looks": 'page { name="page 1 of 1"; text ["2001-01-01 01:01:01 page 1 of 2"] { @[1,1]; } }\npage { text ["page 2 of 2"] { @[1,3]; } }\n',
    "many": 'load m="m.stl";\n' + "".join('page { name="p%d"; %s }\n' % (i, DRAW if i % 3 else "") for i in range(12)),
}
PAGES = {"none": 0, "load": 0, "one": 1, "blank": 1, "two": 2, "looks": 2, "many": 12}

EXE = CLOCK = None


def setup(d):
    w = os.path.join(os.path.realpath(d), "w")
    write(w + "/m.stl", stl(box(1, 2, 3)))
    write(w + "/k.stl", stl(box(2, 1, 1)))
    for n, s in SCRIPTS.items():
        write(w + "/" + n, s)
    return w


def meta(page):
    """The texts at the corner, and the page without them."""
    at = [t for t in page["texts"] if abs(t[0] - 7) < .01 and abs(t[1] - 7) < .01]
    rest = dict(page, texts=[t for t in page["texts"] if t not in at])
    return [t[2] for t in at], rest


# ---- required options
S = {"absent": [], "empty": ["--script="], "good": ["--script=one"], "spaced": ["--script", "one"], "dash": ["-script=one"],
     "missing": ["--script=nothere"], "last": ["--script=nothere", "--script=one"], "noarg": ["--script"]}
O = {"absent": [], "empty": ["--output="], "good": ["--output=o"], "spaced": ["--output", "o"], "dash": ["-output=o"],
     "last": ["--output=wrong", "--output=o"], "noarg": ["--output"]}
X = {"none": [], "unknown": ["--nonesuch"], "badbool": ["--timestamp=maybe"], "name": ["--name=x"]}


def need_case(c, d, ident):
    _, s, o, x, order, old = ident
    w = setup(d)
    if old:
        write(w + "/o", "OLD")
    parts = {"s": S[s], "o": O[o], "x": X[x]}
    args = [a for k in order for a in parts[k]]
    c.note(" ".join(args))
    before = sorted(os.listdir(w))
    r = prog(c, EXE, args, w)
    got = read(w + "/o")
    c.state(s, o, x, r.rc == 0)
    c.outcome = str(r.rc == 0)
    good = s in ("good", "spaced", "dash", "last") and o in ("good", "spaced", "dash", "last") and x in ("none", "name")
    # "--script" without a value takes the next argument, or is an error
    if "noarg" in (s, o):
        c.check(r.rc is not None, "hang", r.err)
        if (s == "noarg" and o == "absent") or (o == "noarg" and s in ("absent", "empty")):
            c.check(r.rc != 0, "required", "exit %s with %s" % (r.rc, args))
        return
    if good:
        c.check(r.rc == 0, "refused", "exit %s with %s\n%s" % (r.rc, args, r.err[-800:]))
        c.check(got is not None and got.startswith(b"%"), "no-output", "no document in the output")
        c.check(not os.path.exists(w + "/wrong"), "wrong-output", "an output was written to the overridden name")
    else:
        c.check(r.rc not in (0, None), "required", "exit %s with %s\n%s" % (r.rc, args, r.err[-800:]))
        if s in ("absent", "empty") or o in ("absent", "empty"):
            c.check(got == (b"OLD" if old else None) and sorted(os.listdir(w)) == before, "required-output",
                    "without %s something was written: %s" % ("--script" if s in ("absent", "empty") else "--output",
                                                             sorted(os.listdir(w))))
        else:
            c.check(got in (b"OLD", b"", None), "required-document", "a failing run wrote a document")


# ---- timestamp and number_pages
BOOL = {"default": [], "on": ["--{f}"], "true": ["--{f}=true"], "1": ["--{f}=1"], "off": ["--no{f}"], "false": ["--{f}=false"],
        "0": ["--{f}=0"], "no": ["--{f}=no"], "onoff": ["--{f}", "--no{f}"], "offon": ["--no{f}", "--{f}"]}
ON = ("default", "on", "true", "1", "offon")
NAMES = {"": None, "empty": "", "x": "x", "long": "a name of some words, 100% (really) \\ <and> " * 4, "date": "2001-02-03 04:05:06",
         "subst": "$0 $1 %s {0}", "percent": "%!PS", "high": "\xe9\xff"}


def mask_date(b):
    return DATE.sub("DATE", b.decode("latin-1"))


def opt_case(c, d, ident):
    _, script, ts, num, nm = ident
    w = setup(d)
    base = ["--script=" + script]
    t = [x.replace("{f}", "timestamp") for x in BOOL[ts]]
    n = [x.replace("{f}", "number_pages") for x in BOOL[num]]
    name = NAMES[nm]
    na = [] if name is None else [b"--name=" + name.encode("latin-1")]
    c.note("%s %s %s name %r" % (script, t, n, name))
    t0 = time.time()
    r = prog(c, EXE, base + ["--output=o"] + t + n + na, w)
    t1 = time.time()
    r2 = prog(c, EXE, base + ["--output=p", "--notimestamp", "--nonumber_pages"], w)
    c.state(script, ts in ON, num in ON, nm)
    c.outcome = "%s %s" % (ts in ON, num in ON)
    if r.rc != 0 or r2.rc != 0:
        c.fail("refused", "exit %s, %s\n%s" % (r.rc, r2.rc, r.err[-800:]))
        return
    x, y = PsDump.read(w + "/o"), PsDump.read(w + "/p")
    c.check(x["ok"] and y["ok"], "document", x["error"] + y["error"])
    if not (x["ok"] and y["ok"]):
        return
    k = len(x["pages"])
    c.check(k == PAGES[script] and len(y["pages"]) == k, "pages", "%d and %d pages of %d" % (k, len(y["pages"]), PAGES[script]))
    for i, (p, q) in enumerate(zip(x["pages"], y["pages"])):
        mp, rp = meta(p)
        mq, rq = meta(q)
        c.check(not mq, "corner-off", "with both off the corner of page %d shows %s" % (i + 1, mq))
        c.check(rp == rq, "else-changed", "the options change more than the corner of page %d" % (i + 1))
        exp = []
        if ts in ON:
            exp.append("DATE")
        if num in ON:
            exp.append("page %d of %d" % (i + 1, k))
        got = [DATE.sub("DATE", z) for z in mp]
        c.check(" ".join(got).split() == " ".join(exp).split(), "corner", "the corner of page %d shows %s, not %s" % (i + 1, mp, exp))
        for z in mp:
            for m in DATE.findall(z):
                ok = any(m in (time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(s)), time.strftime("%Y-%m-%d %I:%M:%S", time.gmtime(s)))
                         for s in range(int(t0) - 1, int(t1) + 2))
                c.check(ok, "date", "the date is %s at %s" % (m, time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(t0))))
    head = "\n".join(x["comments"][:12])
    if name:
        c.check(name in head, "name", "the name is not in the header:\n" + head)
    c.check(re.search(r"(?m)\b%s$" % re.escape(script), head), "source", "the script's path is not in the header:\n" + head)
    # the rest of the text of the document
    a, b = (mask_date(read(w + "/" + f)) for f in "op")
    strip = lambda s: [l for l in s.split("\n") if "Name:" not in l]
    if ts not in ON and num not in ON:
        c.check(strip(a) == strip(b), "bytes", "the same options spelled differently give different documents")


def long_case(c, d, ident):
    """Long values of the options."""
    _, what, n = ident
    w = setup(d)
    word = ("some words and more " * (n // 20 + 1))[:n - 1] + "!"
    args = {"script": "one", "output": "o", "name": "x"}
    if what == "name":
        args["name"] = word
    else:  # a path of n characters
        left, parts = n - 2, []
        while left > 0:
            k = min(120, left)
            if left - k == 1:
                k -= 1
            parts.append(("dir%d" % len(parts) + "z" * k)[:k])
            left -= k + 1
        p = "/".join(parts)
        if "" in parts or len(w) + len(p) > 4090:
            c.outcome = "no such path"
            return
        os.makedirs(w + "/" + p)
        args[what] = p + ("/q" if n > 2 else "q")
        if what == "script":
            write(w + "/" + args["script"], SCRIPTS["one"])
    r = prog(c, EXE, ["--%s=%s" % x for x in args.items()], w)
    c.note("--%s of %d characters" % (what, len(args[what])))
    c.state("long", what, n)
    if r.rc != 0:
        c.fail("refused", "exit %s with --%s of %d characters\n%s" % (r.rc, what, n, r.err[-800:]))
        return
    x = PsDump.read(w + "/" + args["output"])
    c.check(x["ok"] and len(x["pages"]) == 1, "document", x["error"])
    if not x["ok"]:
        return
    head = "\n".join(x["comments"][:12])
    c.check(args["name"] in head, "name", "the name of %d characters is not in the header:\n%s" % (len(args["name"]), head))
    c.check(re.search(r"(?m)(^|[^/\w])%s$" % re.escape(args["script"]), head), "source", "the script's path of %d characters is not in the header:\n%s" % (len(args["script"]), head))
    c.outcome = "long"


TIMES = ["2026-01-02 03:04:05", "2026-01-02 00:00:00", "2026-01-02 11:59:59", "2026-01-02 12:00:00", "2026-01-02 12:59:59",
         "2026-01-02 13:00:00", "2026-01-02 23:59:59", "2024-02-29 09:08:07", "1999-12-31 21:10:00", "2000-01-01 00:00:01",
         "2038-01-19 03:14:08", "1970-01-01 00:00:00"]


def clock_case(c, d, ident):
    _, when, ts, num = ident
    import calendar
    w = setup(d)
    s = calendar.timegm(time.strptime(when, "%Y-%m-%d %H:%M:%S"))
    env = {"LD_PRELOAD": CLOCK, "MC_NOW": str(s)}
    args = ["--script=two", "--timestamp=" + ts, "--number_pages=" + num]
    r = prog(c, EXE, args + ["--output=o"], w, env)
    r2 = prog(c, EXE, args + ["--output=p"], w, env)
    c.note("%s timestamp=%s number_pages=%s" % (when, ts, num))
    c.state(when, ts, num)
    if r.rc != 0 or r2.rc != 0 or not os.path.isfile(w + "/o"):
        c.fail("refused", "exit %s, %s\n%s" % (r.rc, r2.rc, r.err[-800:]))
        return
    a, b = read(w + "/o"), read(w + "/p")
    c.check(a == b, "clock-bytes", "two runs at the same time give different bytes")
    x = PsDump.read(w + "/o")
    if not x["ok"]:
        c.fail("document", x["error"])
        return
    want = (when, time.strftime("%Y-%m-%d %I:%M:%S", time.gmtime(s)))
    for i, p in enumerate(x["pages"]):
        m = " ".join(meta(p)[0])
        e = ["%s%s" % (z if ts == "true" else "", " page %d of 2" % (i + 1) if num == "true" else "") for z in want]
        c.check(m.strip() in [z.strip() for z in e], "date", "the corner shows '%s', not %s" % (m, e))
    for z in x["comments"][:12]:
        for m in DATE.findall(z):
            c.check(m in want, "date-header", "the header shows '%s', not %s" % (m, want))


ZONES = [0, 19800, -12600, 50400, -43200, 3600, -34200, 20700]


def zone_file(f, off):
    """A time zone `off` seconds east of UTC."""
    import struct
    one = lambda: b"TZif2" + b"\0" * 15 + struct.pack(">6l", 0, 0, 0, 0, 1, 4) + struct.pack(">lbb", off, 0, 0) + b"XXX\0"
    a = abs(off)
    foot = "\n<XXX>%s%d:%02d\n" % ("-" if off > 0 else "", a // 3600, a // 60 % 60)
    with open(f, "wb") as o:
        o.write(one() + one() + foot.encode())


def zone_case(c, d, ident):
    """Local time, and one time throughout, however long the run takes."""
    _, off, when, step = ident
    import calendar
    w = setup(d)
    zone_file(w + "/zone", off)
    s = calendar.timegm(time.strptime(when, "%Y-%m-%d %H:%M:%S"))
    env = {"LD_PRELOAD": CLOCK, "MC_NOW": str(s), "TZ": ":" + w + "/zone"}
    if step:
        env["MC_STEP"] = str(step)
    r = prog(c, EXE, ["--script=many", "--output=o"], w, env)
    c.note("%s, %d s east of UTC, a clock that goes %d s a look" % (when, off, step))
    c.state("zone", off, when, step)
    c.outcome = "zone"
    if r.rc != 0 or not os.path.isfile(w + "/o"):
        c.fail("refused", "exit %s\n%s" % (r.rc, r.err[-800:]))
        return
    x = PsDump.read(w + "/o")
    if not x["ok"]:
        c.fail("document", x["error"])
        return
    dates = [DATE.findall(" ".join(meta(p)[0])) for p in x["pages"]]
    c.check(all(len(z) == 1 and z == dates[0] for z in dates), "one-date", "not the same date on every page: %s" % dates)
    ok = set()
    for k in range(0, 400 if step else 1):
        for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d %I:%M:%S"):
            ok.add(time.strftime(f, time.gmtime(s + off + k * step)))
    c.check(dates[0] and dates[0][0] in ok, "local", "the date is %s, not one of %s" % (dates[0], sorted(ok)[:4]))


# ---- histories
OLD = {"nothing": None, "short": "%!\n", "equal": "", "long": "showpage\n" * 2000, "longer": "(x) show showpage\n" * 40000}


def history_case(c, d, ident):
    _, old, runs = ident
    w = setup(d)
    args = lambda s, o: ["--script=" + s, "--output=" + o, "--notimestamp"]
    if old == "equal":
        prog(c, EXE, args(runs[0], "o"), w)
    elif OLD[old]:
        write(w + "/o", OLD[old])
    c.note("output holds: %s; runs: %s" % (old, runs))
    c.state("old", old)
    for s in runs:
        r = prog(c, EXE, args(s, "o"), w)
        r2 = prog(c, EXE, args(s, "fresh"), w)
        if r.rc != 0 or r2.rc != 0 or not os.path.isfile(w + "/fresh"):
            c.fail("refused", "exit %s, %s\n%s" % (r.rc, r2.rc, r.err[-800:]))
            return
        a, b = read(w + "/o"), read(w + "/fresh")
        c.check(a is not None and b is not None and mask_date(a) == mask_date(b), "history",
                "%s bytes over what was there, %s into a fresh file" % (len(a or b""), len(b or b"")))
        c.check(PsDump.read(w + "/fresh")["ok"], "document", "the document is broken")
        os.unlink(w + "/fresh")
        c.state("run", s, len(a or b""))


ENVS = {
    "tz": {"TZ": "America/New_York"}, "tz2": {"TZ": "Asia/Kolkata"}, "nontz": {"TZ": ":none"},
    "de": {"LC_ALL": "de_DE.UTF-8"}, "posix": {"LC_ALL": "POSIX"}, "utf8": {"LC_ALL": "C.UTF-8"}, "lang": {"LANG": "tr_TR"},
    "none": {}, "home": {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, "cols": {"COLUMNS": "3", "TERM": "dumb"},
    "big": {"X%d" % i: "y" * 1000 for i in range(50)}, "malloc": {"MALLOC_PERTURB_": "165"}, "malloc2": {"MALLOC_PERTURB_": "1", "MALLOC_ARENA_MAX": "1"},
    "tcache": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_PERTURB_": "90"},
}


def env_case(c, d, ident):
    _, script, env, where = ident
    w = setup(d)
    args = ["--script=" + w + "/" + script, "--load_path=" + w, "--name=n"]
    r = prog(c, EXE, args + ["--output=" + w + "/o"], w)
    os.makedirs(w + "/else/where")
    cwd = {"w": w, "else": w + "/else/where", "root": "/"}[where]
    r2 = prog(c, EXE, args + ["--output=" + w + "/p"], cwd, ENVS[env])
    c.note("%s in environment %s, directory %s" % (script, ENVS[env] if env != "big" else env, where))
    c.state(script, env, where)
    c.check(r.rc == 0 and r2.rc == 0, "refused", "exit %s, %s\n%s" % (r.rc, r2.rc, r2.err[-800:]))
    a, b = read(w + "/o"), read(w + "/p")
    c.check(a is not None and b is not None and mask_date(a) == mask_date(b), "environment", "the environment changes the document")


# ---- nothing undefined: what a run reads it or its user has set
def ring(n=12):
    import math
    p = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]
    f = []
    for i in range(n):
        (a, b), (x, y) = p[i], p[(i + 1) % n]
        f += [((a, b, 0), (x, y, 0), (x, y, 1)), ((a, b, 0), (x, y, 1), (a, b, 1)), ((0, 0, 1), (a, b, 1), (x, y, 1)),
              ((0, 0, 0), (x, y, 0), (a, b, 0))]
    return f


def undefined_scripts():
    """Every directive with every optional property there or not, every kind of value, and every way to be refused."""
    pts = ["[1,0,0]", "near([1,0,0])", "center([0,0,0])"]
    calls = []
    for f in ("", ', fmt="%.2f"', ', fmt="%q"', ", fmt=1"):
        for at in ("[0,.5,0]", "[0,5,0]", "near([0,1,0])"):
            for q in pts:
                calls.append("dim(at=%s, dir=[1,0,0], from=[-1,0,0], to=%s%s)" % (at, q, f))
            for k in ("dia", "rad"):
                for ce in ("[0,0,0]", "[1,0,0]"):
                    calls.append("%s(at=%s, dir=[0,1,0], center=%s%s)" % (k, at, ce, f))
        for fr in ("from_dir=[1,0,0]", "from_point=[1,0,0]", "from_point=near([1,0,0])"):
            for to in ("to_dir=[0,1,0]", "to_point=[0,1,0]", "to_dir=[1,0,0]"):
                calls.append("angle(at=[1,1,0], apex=[0,0,0], %s, %s%s)" % (fr, to, f))
    full = {"dim": ["at=[0,.5,0]", "dir=[1,0,0]", "from=[-1,0,0]", "to=[1,0,0]"],
            "dia": ["at=[0,.5,0]", "dir=[0,1,0]", "center=[0,0,0]"], "rad": ["at=[0,.5,0]", "dir=[0,1,0]", "center=[0,0,0]"],
            "angle": ["at=[1,1,0]", "apex=[0,0,0]", "from_dir=[1,0,0]", "to_dir=[0,1,0]"]}
    for k, ps in full.items():
        for i in range(len(ps)):
            n = ps[i].split("=")[0]
            for v in (None, n + '="x"', n + "=[0,0,0]", n + "=[1,1]", n + "=1:2"):
                calls.append("%s(%s)" % (k, ", ".join(ps[:i] + ([v] if v else []) + ps[i + 1:])))
        calls.append("%s(%s)" % (k, ", ".join(ps + ["other=1"])))
    docs = []
    # some calls a document: those that are refused alone, the others by eights
    for x in calls:
        docs.append('page { draw m { view="Z+"; %s; } }' % x)
    for view in ("", 'view="X-"; ', "view=[30,-20]; ", 'view="Q"; ', "view=1; ", "view=1:2; "):
        for scale in ("", "scale=1:2; ", "scale=0:1; ", "scale=2; "):
            for at in ("", "@[1,2]; "):
                docs.append("page { draw m { %s%s%sdim(at=[0,.5,0], dir=[1,0,0], from=[-1,0,0], to=[1,0,0]); } }" % (at, scale, view))
    docs += ["", "page { }", 'page { name="x"; }', "page { name=1; }", 'page { text ["a"] { } }', 'page { text ["a" "b"] { @[1,1]; } }',
             'page { text ["a"] { x=1; } }', "page { draw q { } }", "page { draw m { x=1; } }", "page {", "?", 'load m="m.stl";',
             'load q="nothere";', 'load q="bad.stl";', 'load q="empty.stl"; page { draw q { } }', 'load q="flat.stl"; page { draw q { } }']
    for x in ("dia(at=[0,1,0], dir=[0,1,0], center=[1,0,0])", "rad(at=[0,1,0], dir=[0,1,0], center=[1,0,0])", "dia(at=[0,1,0], dir=[0,1,0], center=[9,0,0])",
              "dim(at=center([1,0,0]), dir=[1,0,0], from=[0,0,0], to=[1,0,0])", "dim(at=near([1,0,0]), dir=[0,1,0], from=[0,0,0], to=[1,0,0])"):
        docs.append('load l="line.stl"; page { draw l { %s; } }' % x)
        docs.append('load l="flat.stl"; page { draw l { %s; } }' % x)
    return ['load m="r.stl";\n' + x for x in docs]


SUPP = "".join("{\n r%d\n Memcheck:%s\n obj:*libre2.so*\n}\n" % (i, k) for i, k in enumerate(("Cond", "Value8", "Value4")))


def memory_case(c, d, ident):
    """Memcheck as the oracle: no output or branch may depend on memory nobody wrote."""
    w = setup(d)
    write(w + "/r.stl", stl(ring()))
    write(w + "/bad.stl", "solid q\nfacet normal 0 0 1\nvertex 1\n")
    write(w + "/empty.stl", "solid q\nendsolid q\n")
    write(w + "/flat.stl", stl([((0, 0, 0), (1, 0, 0), (2, 0, 0))]))
    write(w + "/line.stl", stl([((0, 0, 0), (1, 0, 0), (0, 5, 0)), ((1, 0, 0), (2, 0, 0), (0, 5, 0))]))
    write(w + "/supp", SUPP)
    text = undefined_scripts()[ident[1]]
    write(w + "/s", text)
    r = prog(c, "valgrind", ["-q", "--leak-check=no", "--undef-value-errors=yes", "--error-exitcode=99", "--suppressions=" + w + "/supp", EXE,
                             "--script=s", "--output=o", "--notimestamp"], w, limit=300)
    c.note(text)
    c.state("memory", ident[1], r.rc)
    c.outcome = "memory %s" % r.rc
    c.check(r.rc != 99, "undefined", "the run depends on memory that was never written (or not its own)\n%s" % r.err[-3000:])


def body(c, d):
    {"long": long_case, "need": need_case, "opt": opt_case, "clock": clock_case, "zone": zone_case, "history": history_case, "env": env_case, "memory": memory_case}[c.id[0]](c, d, c.id)


def cases(tier):
    th = tier == "thorough"
    r = []
    for s, o, x in itertools.product(S, O, X):
        for order in ("sox", "xos", "oxs") if th or x == "none" else ("sox", "xos"):
            if "noarg" in (s, o) and (order != "sox" or x != "none"):
                continue
            for old in (False, True):
                r.append(["need", s, o, x, order, old])
    for script in SCRIPTS:
        for ts, num in itertools.product(BOOL, repeat=2):
            for nm in NAMES if th or (ts in ("default", "off") and num in ("default", "off")) else ["x"]:
                r.append(["opt", script, ts, num, nm])
    lens = list(range(3, 140)) + [200] + list(range(250, 262)) + [300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3900]
    for n in lens + [4096, 5000, 10000, 100000]:
        for what in ("name", "script", "output"):
            if what == "name" or n < 4000:
                r.append(["long", what, n])
    for when in TIMES:
        for ts, num in itertools.product(("true", "false"), repeat=2):
            r.append(["clock", when, ts, num])
    for off in ZONES if th else ZONES[:5]:
        for when in TIMES[:-1]:
            for step in (0, 1, 7, 3600):
                r.append(["zone", off, when, step])
    for old in OLD:
        for n in range(1, 5 if th else 4):
            for runs in itertools.product(("none", "one", "many"), repeat=n):
                r.append(["history", old, list(runs)])
    for script in SCRIPTS:
        for env in ENVS:
            for where in ("w", "else", "root"):
                r.append(["env", script, env, where])
    for i in range(len(undefined_scripts())):
        r.append(["memory", i])
    return r


def run(prop, *, tier, scratch, out, evidence, known, replay):
    global EXE, CLOCK
    EXE = build.cli()
    CLOCK = build.preload("fakeclock")
    build.psdump()
    return common.run(prop, cases=cases(tier), body=body, rule=RULE, assumptions=ASSUMPTIONS, tier=tier,
                      scratch=scratch, out=out, evidence=evidence, known=known, replay=replay)
