"""C19: model names resolve to the right file, once each."""
import itertools
import os

from . import common
from .common import PsDump, build, box, prog, read, stl, write

RULE = ("the current directory and two load-path directories each hold the model, hold one that does not parse, an empty one, a "
        "directory or a dangling link of its name, or nothing, x every spelling of the load path (none, one, both ways, empty elements, repeated, "
        "trailing slash, relative, '.', missing, not a directory) x spellings of the name (plain, in a subdirectory, './', '../', "
        "absolute, oddly named, climbing out of the directory); %d oddly named directories in the load path; models nobody may read lie in every other place; two models in every combination of places; names loaded "
        "twice; loads in every place of the script; 1 to 129 loads and directories, one of them missing or loaded twice; names and directories "
        "of 20 to 3900 characters.") % 21
ASSUMPTIONS = ["a directory in place of a model either makes the run fail or is passed over",
               "the program runs as root: files without read permission are left to the fault injection of C02"]

# what stands where
STATES = ["absent", "good", "bad", "empty", "dir", "dangling"]
# the size of the model (its x extent) in each place
SIZES = {"cwd": 1.0, "a": 1.5, "b": 2.0, "rel": 2.5, "abs": 3.0}
DECOY = 4.0


def model(size):
    return stl(box(size, 0.5, 0.5))


def put(path, state, size):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if state == "good":
        write(path, model(size))
    elif state == "bad":
        write(path, "solid x\nnonsense\nendsolid x\n")
    elif state == "empty":
        write(path, "")
    elif state == "dir":
        os.makedirs(path)
    elif state == "dangling":
        os.symlink("nowhere", path)


def widths(pages, blank):
    """The x extent of what is drawn on each page, in inches; None: nothing."""
    r = []
    for p in pages:
        ls = list(p["lines"])
        for b in blank:
            if b in ls:
                ls.remove(b)
        xs = [l[0] for l in ls] + [l[2] for l in ls]
        r.append(round((max(xs) - min(xs)) / 72, 3) if xs else None)
    return r


def resolve(cands):
    """The allowed outcomes given the candidates' (state, size): size, None (drawn empty) or 'fail'."""
    for i, (st, size) in enumerate(cands):
        if st in ("absent", "dangling"):
            continue
        if st == "good":
            return [size]
        if st == "empty":
            return [None]
        if st == "bad":
            return ["fail"]
        return ["fail"] + resolve(cands[i + 1:])
    return ["fail"]


# load path spelling -> (text, directories in order); {R} is the scratch root
PATHS = {
    "none": (None, []), "empty": ("", []), "a": ("{R}/a", ["a"]), "b": ("{R}/b", ["b"]),
    "a,b": ("{R}/a,{R}/b", ["a", "b"]), "b,a": ("{R}/b,{R}/a", ["b", "a"]),
    ",a,,b,": (",{R}/a,,{R}/b,", ["a", "b"]), ",": (",", []),
    "a,a,b": ("{R}/a,{R}/a,{R}/b", ["a", "b"]), "b,a,b": ("{R}/b,{R}/a,{R}/b", ["b", "a"]),
    "a/,b/": ("{R}/a/,{R}/b//", ["a", "b"]), "../a": ("../a", ["a"]), "../b,../a": ("../b/,../a", ["b", "a"]),
    ".,b": (".,{R}/b", ["b"]), "missing,b": ("{R}/missing,{R}/b", ["b"]), "file,a": ("{R}/file,{R}/a", ["a"]),
    "rel,b": ("rel,{R}/b", ["rel", "b"]),
}
MAIN = ["none", "a", "a,b", "b,a", ",a,,b,", "../b,../a", "missing,b", "rel,b"]


def decoys(R, name):
    """Models the program must not read."""
    base = os.path.basename(name)
    for d in ("scr", "out", "other", "cwd/other", "a/other", "a/a", "b/b"):
        p = os.path.join(R, d, base)
        if not os.path.lexists(p):
            put(p, "good", DECOY)
    # the scratch root taken as a relative path, below every directory
    for d in ("cwd", "a", "b"):
        p = os.path.join(R, d) + os.path.join(R, "abs", base)
        if not os.path.lexists(p):
            put(p, "good", DECOY)


def one_case(c, d, ident):
    _, cwd, a, b, lp, name, rel = ident
    R = os.path.realpath(d)
    state = {"cwd": cwd, "a": a, "b": b, "rel": rel}
    absname = name.startswith("/")
    for p, s in state.items():
        dd = os.path.join(R, "cwd/rel" if p == "rel" else p)
        os.makedirs(os.path.join(dd, "sub"), exist_ok=True)
        if not absname:
            q = os.path.normpath(os.path.join(dd, name))
            if q.startswith(R) and not os.path.lexists(q):
                put(q, s, SIZES[p])
        else:
            put(os.path.join(dd, os.path.basename(name)), "good", DECOY)
    put(R + "/abs/" + os.path.basename(name), cwd if absname else "good", SIZES["abs"] if absname else DECOY)
    write(R + "/file", "x")
    decoys(R, name)
    text, dirs = PATHS[lp]
    n = R + "/abs/" + os.path.basename(name) if absname else name
    write(R + "/scr/s", 'load m="%s";\npage { draw m { @[5,4]; scale=1:1; view="Z+"; } }\npage { }\n' % n)
    os.makedirs(R + "/out", exist_ok=True)
    args = ["--script=" + R + "/scr/s", "--output=" + R + "/out/o"]
    if text is not None:
        args.append("--load_path=" + text.replace("{R}", R))
    c.note("cwd %s, a %s, b %s, rel %s, --load_path %s, name %s" % (cwd, a, b, rel, text, name))
    if absname:
        want = resolve([(cwd, SIZES["abs"])])
        steps = ["abs"]
    else:
        steps = ["cwd"] + dirs
        want = resolve([(state[x], SIZES[x]) for x in steps])
    c.state(lp, name, "start")
    for x in steps:
        c.state(lp, name, x, cwd if x == "abs" else state[x])
        if (cwd if x == "abs" else state[x]) not in ("absent", "dangling", "dir"):
            break
    c.state("end", str(want))
    outcome(c, args, R, want)


def outcome(c, args, R, want, cwd="cwd"):
    """want: allowed values of the first page's width, or 'fail'."""
    r = prog(c, build_exe(), args, R + "/" + cwd)
    o = read(R + "/out/o")
    if r.rc != 0:
        c.outcome = "fail"
        c.check("fail" in want and r.rc is not None, "refused", "expected to draw %s, but exit %s\n%s" % (want, r.rc, r.err[-1500:]))
        return
    dump = PsDump.read(R + "/out/o")
    if not dump["ok"] or len(dump["pages"]) < 2:
        c.fail("document", "the document is broken: %s" % dump["error"])
        return
    blank = dump["pages"][-1]["lines"]
    got = widths(dump["pages"][:-1], blank)
    c.outcome = str(got)
    if isinstance(want[0], list):  # a list per page
        c.check(got == want[0], "model", "pages show models of widths %s, expected %s\n%s" % (got, want[0], r.err[-1500:]))
        return
    c.check(got[0] in want, "accepted" if want == ["fail"] else "model",
            "the page shows a model of width %s, expected %s\n%s" % (got[0], want, r.err[-1500:]))


EXE = None


def build_exe():
    return EXE


def two_case(c, d, ident):
    """Two models in every combination of places."""
    _, m, k, lp, order = ident  # m, k: place lists
    R = os.path.realpath(d)
    for p in ("cwd", "a", "b", "out", "scr"):
        os.makedirs(os.path.join(R, p))
    size = {("m", "cwd"): 1.0, ("m", "a"): 1.25, ("m", "b"): 1.5, ("k", "cwd"): 2.0, ("k", "a"): 2.25, ("k", "b"): 2.5}
    for n, places in (("m", m), ("k", k)):
        for p in places:
            write(os.path.join(R, p, n + ".stl"), model(size[n, p]))
    text, dirs = PATHS[lp]
    loads = ['load m="m.stl";\n', 'load k="k.stl";\n']
    pages = 'page { draw %s { @[5,4]; scale=1:1; view="Z+"; } }\n'
    s = {"lm": loads[0] + loads[1] + pages % "m" + pages % "k",
         "ml": loads[1] + loads[0] + pages % "m" + pages % "k",
         "late": pages % "m" + loads[0] + pages % "k" + loads[1],
         "twice": loads[0] + loads[1] + pages % "m" + pages % "k" + pages % "m",
         "swap": 'load m="k.stl";\nload k="m.stl";\n' + pages % "k" + pages % "m",
         "unused": loads[0] + loads[1] + pages % "m",
         "same": loads[0] + 'load k="m.stl";\n' + pages % "m" + pages % "k"}[order]
    use = {"lm": "mk", "ml": "mk", "late": "mk", "twice": "mkm", "swap": "mk", "unused": "m", "same": "mm"}[order]
    write(R + "/scr/s", s + "page { }\n")
    c.note("m in %s, k in %s, --load_path %s\n%s" % (m, k, text, s))
    w = {}
    for n, places in (("m", m), ("k", k)):
        w[n] = next((size[n, p] for p in ["cwd"] + dirs if p in places), "fail")
    need = "m" if order == "same" else "mk"
    want = [[w[n] for n in use]] if all(w[n] != "fail" for n in need) else ["fail"]
    c.state(order, lp, "start")
    for n in need:
        c.state(order, lp, n, str(w[n]))
    args = ["--script=" + R + "/scr/s", "--output=" + R + "/out/o"]
    if text is not None:
        args.append("--load_path=" + text.replace("{R}", R))
    outcome(c, args, R, want)


def dup_case(c, d, ident):
    """Lists of loads: names from {m, k, M, mm}, files of {good 1, good 2, bad}."""
    _, loads, where = ident
    R = os.path.realpath(d)
    for p in ("cwd", "a", "b", "out", "scr"):
        os.makedirs(os.path.join(R, p))
    write(R + "/cwd/1.stl", model(1.0))
    write(R + "/cwd/2.stl", model(2.0))
    write(R + "/cwd/bad.stl", "x")
    s = ""
    names = [n for n, _ in loads]
    drawn = sorted(set(names))
    pages = "".join('page { draw %s { @[5,4]; scale=1:1; view="Z+"; } }\n' % n for n in drawn)
    lines = ['load %s="%s.stl";\n' % (n, f) for n, f in loads]
    s = {"before": "".join(lines) + pages, "after": pages + "".join(lines),
         "around": lines[0] + pages + "".join(lines[1:])}[where]
    write(R + "/scr/s", s + "page { }\n")
    c.note(s)
    bad = len(set(names)) < len(names) or any(f in ("bad", "none") for _, f in loads)
    want = ["fail"] if bad else [[float(dict(map(tuple, loads))[n]) for n in drawn]]
    for n, f in loads:
        c.state(n, f)
    c.state("end", where, bad)
    outcome(c, ["--script=" + R + "/scr/s", "--output=" + R + "/out/o"], R, want)


def up_case(c, d, ident):
    """Names that leave the directory they are looked for in."""
    _, cwd, a, b, name, spell = ident
    R = os.path.realpath(d)
    at = {"cwd": "p0/q/cwd", "a": "p1/q/w", "b": "p2/q/w"}
    for k, st in zip(("cwd", "a", "b"), (cwd, a, b)):
        os.makedirs(os.path.join(R, at[k]))
        os.makedirs(os.path.join(R, at[k], "../q"))
        put(os.path.normpath(os.path.join(R, at[k], name)), st, SIZES[k])
    write(R + "/scr/s", 'load m="%s";\npage { draw m { @[5,4]; scale=1:1; view="Z+"; } }\npage { }\n' % name)
    os.makedirs(R + "/out", exist_ok=True)
    lp = {"abs": "%s/p1/q/w,%s/p2/q/w" % (R, R), "rel": "../../../p1/q/w,../../../p2/q/w/"}[spell]
    c.note("cwd %s, a %s, b %s, --load_path %s, name %s" % (cwd, a, b, lp, name))
    c.state("up", name, spell, cwd, a, b)
    want = resolve([(cwd, SIZES["cwd"]), (a, SIZES["a"]), (b, SIZES["b"])])
    c.state("end", str(want))
    outcome(c, ["--script=" + R + "/scr/s", "--output=" + R + "/out/o", "--load_path=" + lp], R, want, at["cwd"])


# Directory names the load path takes as they are, and what someone could take them for.
ODD = {" ": ["", "."], "a b": ["a", "b"], " a": ["a"], "a ": ["a"], "~": ["home"], "$HOME": ["home"], "a;b": ["a", "b"], "a:b": ["a", "b"],
       '"a"': ["a"], "'a'": ["a"], "*": ["a"], "a\\": ["a"], "%41": ["A"], "-a": ["a"], "a=b": ["b"], "...": ["."], "a\tb": ["a"],
       "A": ["a"], "\xe9": ["a"], "file:": ["a"], "--load_path=a": ["a"]}


def odd_case(c, d, ident):
    """A load path of oddly named directories."""
    _, name, rel, where, state = ident
    R = os.path.realpath(d)
    for p in ("cwd", "out", "scr", "home"):
        os.makedirs(os.path.join(R, p))
    base = R + ("/cwd" if rel else "/lp")
    put("%s/%s/m.stl" % (base, name), state, 2.5)
    for w in ODD[name]:
        q = os.path.normpath("%s/%s/m.stl" % (base, w))
        if os.path.dirname(q) != R + "/cwd" and not os.path.lexists(q):
            put(q, "good", DECOY)
    put(R + "/home/m.stl", "good", DECOY)
    e = name if rel else base + "/" + name
    other = R + "/other"
    os.makedirs(other)
    lp = {"only": e, "first": e + "," + other, "last": other + "," + e, "mid": R + "/nothere," + e + "," + R + "/nothere"}[where]
    write(R + "/scr/s", 'load m="m.stl";\npage { draw m { @[5,4]; scale=1:1; view="Z+"; } }\npage { }\n')
    c.note("%s model in %r, --load_path %r" % (state, e, lp))
    c.state("odd", name, rel, where, state)
    want = resolve([(state, 2.5)])
    outcome(c, ["--script=" + R + "/scr/s", "--output=" + R + "/out/o", "--load_path=" + lp], R, want)


def many_case(c, d, ident):
    """Many loads, many directories."""
    _, n, how = ident
    R = os.path.realpath(d)
    for p in ("cwd", "out", "scr", "a"):
        os.makedirs(os.path.join(R, p))
    size = [round(0.5 + 0.0625 * i, 4) for i in range(n)]
    for i in range(n):
        write(R + "/%s/%d.stl" % ("a" if how == "path" else "cwd", i), model(size[i]))
    loads = [("m%d" % i, "%d.stl" % i) for i in range(n)]
    lp = []
    want = [[round(x, 3) for x in size]]
    if how == "path":  # the directory that has them is the last of n + 1
        for i in range(n):
            os.makedirs(R + "/lp%d" % i)
            if i % 2:
                write(R + "/lp%d/other.stl" % i, model(DECOY))
        lp = ["--load_path=" + ",".join([R + "/lp%d" % i for i in range(n)] + [R + "/a"])]
    elif how == "path first":  # the first directory wins
        os.makedirs(R + "/lp")
        for i in range(n):
            os.rename(R + "/cwd/%d.stl" % i, R + "/lp/%d.stl" % i)
            write(R + "/a/%d.stl" % i, model(DECOY))
        lp = ["--load_path=" + ",".join([R + "/lp"] + [R + "/a"] * n)]
    elif how == "same":  # one file under many names
        loads = [("m%d" % i, "0.stl") for i in range(n)]
        want = [[size[0]] * n]
    elif how == "names":  # names that begin alike
        loads = [("m" * (i + 1), "%d.stl" % i) for i in range(n)]
    elif how.startswith("dup"):
        k = {"dup first": 0, "dup mid": n // 2, "dup last": n - 1}[how]
        loads.append((loads[k][0], "%d.stl" % ((k + 1) % n)))
        want = ["fail"]
    elif how.startswith("missing"):
        os.unlink(R + "/cwd/%d.stl" % {"missing first": 0, "missing last": n - 1}[how])
        want = ["fail"]
    pages = 'page { draw %s { @[5,4]; scale=1:1; view="Z+"; } }\n'
    s = "".join('load %s="%s";\n' % x for x in loads) + "".join(pages % x[0] for x in loads[:n])
    write(R + "/scr/s", s + "page { }\n")
    c.note("%d loads, %s" % (n, how))
    c.state("many", n, how)
    outcome(c, ["--script=" + R + "/scr/s", "--output=" + R + "/out/o"] + lp, R, want)


def long_case(c, d, ident):
    """Paths of every length: components of so many characters, so deep."""
    _, total, comp, where = ident
    R = os.path.realpath(d)
    for p in ("cwd", "out", "scr", "a"):
        os.makedirs(os.path.join(R, p))
    base = {"name": R + "/cwd", "abs": R + "/x", "lp": R + "/x", "lp name": R + "/a", "lp rel": R + "/cwd"}[where]
    # a name of `total` characters, ending in /m.stl; absolute ones count from the root
    left = total - len("/m.stl") - (len(base) + 1 if where in ("abs", "lp") else 0)
    parts = []
    while left > 0:
        k = min(comp, left)
        if left - k == 1:
            k -= 1
        parts.append(("dir%d" % len(parts) + "z" * k)[:k])
        left -= k + 1
    rel = "/".join(parts)
    if not rel or "" in parts or len(base) + len(rel) + 10 > 4095:
        c.outcome = "no such path"
        return
    os.makedirs(base + "/" + rel)
    write(base + "/" + rel + "/m.stl", model(2.5))
    # what a path cut short could find
    for k in range(len(parts)):
        write(base + "/" + "/".join(parts[:k]) + "/m.stl" if k else base + "/m.stl", model(DECOY))
    name = {"name": rel + "/m.stl", "abs": base + "/" + rel + "/m.stl", "lp": "m.stl", "lp name": rel + "/m.stl", "lp rel": "m.stl"}[where]
    lp = {"lp": base + "/" + rel, "lp name": R + "/a", "lp rel": rel}.get(where)
    if where.startswith("lp r"):
        os.unlink(base + "/m.stl")
    write(R + "/scr/s", 'load m="%s";\npage { draw m { @[5,4]; scale=1:1; view="Z+"; } }\npage { }\n' % name)
    c.note("a path of %d characters, components of %d, %s" % (total, comp, where))
    c.state("long", total, comp, where)
    args = ["--script=" + R + "/scr/s", "--output=" + R + "/out/o"]
    if lp:
        args.append("--load_path=" + lp)
    outcome(c, args, R, [2.5])


def body(c, d):
    {"many": many_case, "long": long_case, "up": up_case, "odd": odd_case, "one": one_case, "two": two_case, "dup": dup_case}[c.id[0]](c, d, c.id)


NAMES = ["m.stl", "sub/m.stl", "./m.stl", "sub/../m.stl", "m", "-x,y .stl", " m.stl", "m.stl ", "~/m.stl", "C:m.stl", "M.STL", "%41.stl",
         ".m", "sub//m.stl", "$HOME.stl", "stl"]
UPS = ["../m.stl", "../../m.stl", "./../m.stl", "../q/../m.stl", "../x/m.stl"]


def cases(tier):
    th = tier == "thorough"
    r = []
    few = ["absent", "good", "bad", "dir"]
    for lp in PATHS:
        sts = STATES if th or lp in MAIN else few
        for cwd, a, b in itertools.product(sts, repeat=3):
            for rel in (few if lp == "rel,b" else ["absent"]):
                r.append(["one", cwd, a, b, lp, "m.stl", rel])
    for lp in (PATHS if th else MAIN):
        for i, name in enumerate(NAMES[1:]):
            for cwd, a, b in itertools.product(STATES if th else few if i < 5 else few[:2], repeat=3):
                r.append(["one", cwd, a, b, lp, name, "absent"])
    for name in UPS:
        for spell in ("abs", "rel"):
            for cwd, a, b in itertools.product(STATES if th else few, repeat=3):
                r.append(["up", cwd, a, b, name, spell])
    for name in ODD:
        for rel in (False, True):
            for where in ("only", "first", "last", "mid"):
                for st in ("good", "absent", "bad") if not th else STATES:
                    r.append(["odd", name, rel, where, st])
    ns = list(range(1, 21)) + [31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129]
    for n in ns + ([255, 256, 257] if th else []):
        for how in ("plain", "path", "path first", "same", "names", "dup first", "dup mid", "dup last", "missing first", "missing last"):
            if n > 1 or not how.startswith("dup"):
                r.append(["many", n, how])
    lens = [30, 63, 64, 65, 100, 127, 128, 129, 150, 200] + list(range(250, 262)) + [300, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 3000, 3900]
    for total in range(20, 3900, 7) if th else lens:
        for comp in (20, 100, 255):
            for where in ("name", "abs", "lp", "lp name", "lp rel"):
                r.append(["long", total, comp, where])
    for lp in PATHS:
        for st in STATES:
            r.append(["one", st, "absent", "absent", lp, "/m.stl", "absent"])
    places = [[p for i, p in enumerate(("cwd", "a", "b")) if k >> i & 1] for k in range(8)]
    for m, k in itertools.product(places, repeat=2):
        for lp in (PATHS if th else ["none", "a", "a,b", "b,a"]):
            if lp == "rel,b":
                continue
            for order in ("lm", "ml", "late", "twice", "swap", "unused", "same"):
                if order == "swap":
                    # m is k.stl and k is m.stl: pages k, m show m.stl, k.stl
                    pass
                r.append(["two", m, k, lp, order])
    one = [[n, f] for n in ("m", "k", "M", "mm") for f in ("1", "2", "bad", "none")]
    for n in range(1, 4 if th else 3):
        for loads in itertools.product(one, repeat=n):
            for where in ("before", "after", "around"):
                r.append(["dup", list(loads), where])
    if not th:
        good = [[n, f] for n in ("m", "k") for f in ("1", "2", "bad")]
        for loads in itertools.product(good, repeat=3):
            for where in ("before", "around"):
                r.append(["dup", list(loads), where])
    return r


def run(prop, *, tier, scratch, out, evidence, known, replay):
    global EXE
    EXE = build.cli()
    build.psdump()
    return common.run(prop, cases=cases(tier), body=body, rule=RULE, assumptions=ASSUMPTIONS, tier=tier,
                      scratch=scratch, out=out, evidence=evidence, known=known, replay=replay)
