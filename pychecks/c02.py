"""C02: success means the whole document was written; failure writes none of it."""
import errno
import itertools
import os
import re
import resource
import signal

from . import common
from .common import build, box, prog, read, stl, write

RULE = ("part 1: 5 documents (small, several models and pages, a script of many blocks, a model of many reads, an output of "
        "many writes); every I/O call the program makes on them fails with each errno, once or from then on, or transfers "
        "less; every place a read or write can be torn, followed by an error; every pair of faults on the small document; the "
        "output limited to every length; part 2: every skeleton of up to 2 (3) pages, 2 blocks, 2 dimensions with every "
        "kind of invalid directive at every place, and every pair of them.")
ASSUMPTIONS = ["any exit status but 0, and any signal, is a report of failure",
               "faults are injected at the C library's I/O entry points"]

HARD_READ = {errno.EIO, errno.ENOMEM, errno.EBADF, errno.EISDIR}

DIM = "dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]);"
DRAW = "draw m { @[0,0]; scale=1:2; view=\"Z+\"; %s }"
TEXT = "text [\"words\"] { @[1,1]; }"


def prism(n, r=1.0, h=2.0):
    import math
    p = [(r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n)) for i in range(n)]
    f = []
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        f += [(a + (0,), b + (0,), b + (h,)), (a + (0,), b + (h,), a + (h,)),
              ((0, 0, h), a + (h,), b + (h,)), ((0, 0, 0), b + (0,), a + (0,))]
    return f


def documents(thorough):
    small = {"s": 'load m="m.stl";\npage { name="t"; %s %s }\n' % (DRAW % DIM, TEXT),
             "m.stl": stl(box(1, 2, 3)[:4])}
    multi = {"s": ('load m="m.stl";\nload k="k.stl";\nload u="u.stl";\n'
                   'page { name="one"; %s %s }\npage { name="two"; draw k { @[1,1]; scale=1:1; view="X+"; } }\n'
                   'page { name="three"; %s }\n') % (DRAW % DIM, TEXT, TEXT),
             "m.stl": stl(box(1, 2, 3)), "k.stl": stl(box(2, 2, 2)), "u.stl": stl(box(1, 1, 1))}
    longs = {"s": 'load m="m.stl";\n' + "".join('page { name="p%d"; text ["%s"] { @[1,1]; } }\n' % (i, "x" * (i % 70))
                                               for i in range(120)) + "page { %s }\n" % (DRAW % ""),
             "m.stl": stl(box(1, 2, 3))}
    longm = {"s": 'load m="m.stl";\npage { %s }\n' % (DRAW % DIM), "m.stl": stl(prism(60))}
    longo = {"s": 'load m="m.stl";\n' + "".join("page { %s %s }\n" % (DRAW % DIM, TEXT) for _ in range(100)),
             "m.stl": stl(box(1, 2, 3))}
    return {"small": small, "multi": multi, "long script": longs, "long model": longm, "long output": longo}


FLAGS = ["--script", "s", "--output", "o", "--timestamp=false"]


def mask(b):
    return re.sub(rb"(?m)^% Time: .*$", b"% Time:", b or b"")


DOCS = {}
REFS = {}
LOGS = {}
EXE = LIB = None


def parse_log(path):
    r = []
    try:
        with open(path, encoding="latin-1") as f:
            for line in f:
                i, op, n, p = line.rstrip("\n").split(" ", 3)
                r.append((int(i), op, int(n), os.path.basename(p)))
    except FileNotFoundError:
        pass
    return r


def put(d, doc):
    w = os.path.join(d, "f")
    os.makedirs(w)
    for n, t in doc.items():
        write(os.path.join(w, n), t)
    return w


def launch(c, d, doc, faults, args=FLAGS, preexec=None):
    w = put(d, doc)
    env = {"LD_PRELOAD": LIB, "MC_FAULT_DIR": w, "MC_FAULT_LOG": os.path.join(d, "log"),
           "MC_FAULTS": ",".join("%d:%s" % tuple(f) for f in faults)}
    r = prog(c, EXE, args, w, env, preexec)
    return r, read(os.path.join(w, "o")), parse_log(os.path.join(d, "log"))


def judge(c, doc, r, o, log, name, out_fault):
    what = "exit %s, %s bytes of output%s" % (r.rc, None if o is None else len(o), "\n" + r.err[-1500:])
    if r.rc is None:
        c.fail("hang", "the program does not end: " + what)
        return
    if r.rc == 0:
        c.check(o is not None and mask(o) == REFS[name], "success-incomplete",
                "the run reports success but the output is not the complete document: " + what)
        got = {}
        for _, op, n, p in log:
            if op == "open":
                got[p] = 0
            if op == "read" and n > 0:
                got[p] = got.get(p, 0) + n
        ref = {}
        for _, op, n, p in LOGS[name]:
            if op == "read" and n > 0:
                ref[p] = ref.get(p, 0) + n
        for p, t in doc.items():
            if ref.get(p) == len(t):
                c.check(got.get(p, 0) >= len(t), "success-unread",
                        "the run reports success but read only %d of %d bytes of %s: %s" % (got.get(p, 0), len(t), p, what))
    elif not out_fault:
        c.check(not o, "failure-output", "the run reports failure but left part of the document: " + what)
    c.outcome = "ok" if r.rc == 0 else "fail"


def io_case(c, d, ident):
    _, name, faults = ident
    doc = DOCS[name]
    r, o, log = launch(c, d, doc, faults)
    c.note("document '%s', faults %s" % (name, faults))
    c.note("\n".join("%d %s %d %s" % x for x in log[-12:]))
    c.state(name, "start")
    at = {f[0]: f[1] for f in faults}
    for i, op, n, p in log:
        c.state(name, i, op, p, at.get(i, ""), n)
    c.state(name, "end", r.rc == 0)
    out_fault = any(p == "o" and (i in at) for i, op, n, p in log) or \
        any(p == "o" and op == "write" and n < 0 for i, op, n, p in log)
    judge(c, doc, r, o, log, name, out_fault)
    if r.rc == 0:
        for i, op, n, p in log:
            if p == "o" and op in ("close", "sync") and at.get(i) and at[i] != "e%d" % errno.EINTR and n < 0:
                c.fail("success-" + op, "the %s of the output failed, yet the run reports success" % op)
    if not faults:
        c.check(r.rc == 0 and o, "no-fault", "the run fails without a fault: exit %s\n%s" % (r.rc, r.err[-1500:]))


def fsize_case(c, d, ident):
    _, name, n = ident
    doc = DOCS[name]

    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    w = put(d, doc)
    r = prog(c, EXE, FLAGS, w, None, pre)
    o = read(os.path.join(w, "o"))
    c.note("document '%s', files limited to %d bytes" % (name, n))
    c.state(name, "fsize", n, r.rc == 0)
    c.outcome = str(r.rc == 0)
    if n < len(read_ref(name)):
        c.check(r.rc != 0, "success-incomplete", "the output holds %d of %d bytes, yet the run reports success\n%s"
                % (len(o or b""), len(read_ref(name)), r.err[-1000:]))
    else:
        c.check(r.rc == 0 and mask(o) == REFS[name], "fsize-enough", "the document fits but the run fails: exit %s\n%s" % (r.rc, r.err[-1000:]))


RAW = {}


def read_ref(name):
    return RAW[name]


def node_case(c, d, ident):
    """Something else in place of a file."""
    _, name, victim, kind = ident
    doc = DOCS[name]
    w = put(d, doc)
    p = os.path.join(w, victim)
    args = list(FLAGS)
    if kind == "directory":
        if os.path.exists(p):
            os.unlink(p)
        os.makedirs(p)
    elif kind == "absent":
        os.unlink(p)
    elif kind == "full":
        args[3] = "/dev/full"
    elif kind == "no directory":
        args[3] = "none/o"
    elif kind == "loop":
        if os.path.exists(p):
            os.unlink(p)
        os.symlink(victim, p)
    c.note("document '%s', %s is %s" % (name, victim, kind))
    r = prog(c, EXE, args, w)
    o = read(os.path.join(w, "o"))
    c.state(name, victim, kind, r.rc == 0)
    c.outcome = str(r.rc == 0)
    c.check(r.rc not in (0, None), "success-" + kind, "%s is %s, yet: exit %s\n%s" % (victim, kind, r.rc, r.err[-1000:]))
    if victim != "o":
        c.check(not o, "failure-output", "the run fails but left %d bytes\n%s" % (len(o or b""), r.err[-1000:]))


# ---- part 2
BAD_DIM = ["dim();", "dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0]);", DIM.replace(");", ", at=[0,1,0]);"),
           DIM.replace(");", ", nope=1);"), DIM.replace(");", ", fmt=\"%d\");"), DIM.replace("dir=[1,0,0]", "dir=[0,0,0]"),
           DIM.replace("[1,0,0]);", "nope([1,0,0]));"), DIM.replace("to=[1,0,0]", "to=3"),
           "angle();", "angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0]);", "dia();", "rad();",
           "rad(at=[3,3,0], dir=[1,1,0]);"]
BAD_DRAW = ["draw nope { @[0,0]; scale=1:2; }", DRAW % "scale=1:3;", DRAW % "nope=1;",
            "draw m { @[0,0]; scale=1:2; view=\"Q+\"; }", "draw m { @[0,0]; scale=\"x\"; }",
            "draw m { @[0,0]; scale=0:2; }"]
BAD_TEXT = ["text [\"words\"] { @[1,1]; @[1,2]; }", "text [\"words\"] { @[1,1]; nope=1; }", "text [\"words\"] { @\"x\"; }".replace("@\"x\"", "at=\"x\"")]
BAD_PAGE = ["name=\"t\"; name=\"u\";", "nope=1;", "name=1;"]
BAD_DOC = ["page { draw }", "load x=\"none.stl\";", "load x=\"bad.stl\";", "load m=\"k.stl\";", "}", "load x=\"dir\";"]
ANG = "angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_point=[0,1,0]);"
GOOD_DIM = [DIM, ANG]


def skeletons(thorough):
    """pages; a page is a list of blocks; a block is 't' or a number of dims."""
    blocks = ["t", 0, 1, 2]
    pages = [[]] + [[b] for b in blocks] + [[a, b] for a in blocks for b in (blocks if thorough else ["t", 1])]
    one = [[p] for p in pages]
    two = [[p, q] for p in pages[1:] for q in (pages if thorough else [[], ["t"], [1], [1, "t"]])]
    three = [[[1], ["t"], [2]], [["t", 1], [1, "t"], []], [[1, 1], [1, 1], [1, 1]]] if not thorough else \
        [[p, q, r] for p in ([1], ["t"], [1, "t"]) for q in ([1], [], [2, "t"]) for r in ([1], ["t"], [])]
    return one + two + three


def sites(sk):
    """Every place something invalid can stand: (kind, where...)."""
    r = [("doc", i) for i in range(len(sk) + 1)]
    for i, p in enumerate(sk):
        r += [("page", i)]
        r += [("block", i, k) for k in range(len(p) + 1)]
        for k, b in enumerate(p):
            if b != "t":
                r += [("dim", i, k, n) for n in range(b + 1)]
    return r


KINDS = {"doc": BAD_DOC, "page": BAD_PAGE, "block": BAD_DRAW + BAD_TEXT, "dim": BAD_DIM}


def script(sk, bad):
    bad = {tuple(s): KINDS[s[0]][k] for s, k in bad}
    t = 'load m="m.stl";\n'
    for i, p in enumerate(sk):
        t += bad.get(("doc", i), "") + "\npage {\n  " + (bad.get(("page", i)) or 'name="p%d";' % i) + "\n"
        for k, b in enumerate(p):
            t += "  " + bad.get(("block", i, k), "") + "\n"
            if b == "t":
                t += "  " + TEXT + "\n"
                continue
            ds = ""
            for n in range(b + 1):
                ds += " " + bad.get(("dim", i, k, n), "")
                if n < b:
                    ds += " " + GOOD_DIM[n % 2]
            t += "  " + DRAW % ds + "\n"
        t += "  " + bad.get(("block", i, len(p)), "") + "\n}\n"
    return t + bad.get(("doc", len(sk)), "") + "\n"


def place_case(c, d, ident):
    _, sk, bad, old = ident
    s = script(sk, bad)
    w = os.path.join(d, "f")
    write(w + "/s", s)
    write(w + "/m.stl", stl(box(1, 2, 3)))
    write(w + "/k.stl", stl(box(1, 2, 3)))
    write(w + "/bad.stl", "solid x\nnot an stl\nendsolid x\n")
    os.makedirs(w + "/dir")
    if old:
        write(w + "/o", old)
    c.note(s)
    r = prog(c, EXE, FLAGS, w)
    o = read(w + "/o")
    c.state("sk", str(sk))
    for s_, k in bad:
        c.state("bad", str(s_[0]), k, str(sk))
    c.state("end", r.rc == 0)
    c.outcome = str(r.rc == 0)
    if bad:
        c.check(r.rc not in (0, None), "invalid-accepted", "an invalid directive, yet: exit %s\n%s" % (r.rc, r.err[-1000:]))
        if r.rc != 0:
            c.check(not o or o == (old or "").encode(), "failure-output",
                    "an invalid directive, and %d bytes of output\n%s" % (len(o or b""), r.err[-1000:]))
    else:
        c.check(r.rc == 0, "valid-refused", "a valid script, yet: exit %s\n%s" % (r.rc, r.err[-1000:]))
        c.check(o is not None and o.count(b"\nshowpage") == len(sk), "pages",
                "%d pages of %d" % ((o or b"").count(b"\nshowpage"), len(sk)))


def body(c, d):
    {"io": io_case, "fsize": fsize_case, "node": node_case, "place": place_case}[c.id[0]](c, d, c.id)


E = errno
OPEN = ["e%d" % x for x in (E.ENOENT, E.EACCES, E.EMFILE, E.EIO, E.EINTR)]
FAULTS = {
    "open": OPEN, "create": OPEN + ["e%d" % E.ENOSPC],
    "read": ["e%d" % x for x in (E.EIO, E.EINTR, E.ENOMEM, E.EAGAIN, E.EISDIR)] + ["a%d" % E.EIO, "s1"],
    "write": ["e%d" % x for x in (E.ENOSPC, E.EIO, E.EINTR, E.EFBIG, E.EDQUOT, E.EPIPE)] + ["a%d" % E.ENOSPC, "s1"],
    "close": ["e%d" % x for x in (E.EIO, E.ENOSPC, E.EINTR, E.EDQUOT)],
}
OTHER = ["e%d" % E.EIO]
PAIR = {"open": OPEN[:2], "create": OPEN[:2], "read": ["e%d" % E.EIO, "e%d" % E.EINTR, "s1", "s40"],
        "write": ["e%d" % E.ENOSPC, "e%d" % E.EINTR, "s1", "s900"], "close": ["e%d" % E.EIO]}


def cases(tier):
    th = tier == "thorough"
    r = []
    for name, doc in DOCS.items():
        log = LOGS[name]
        r.append(["io", name, []])
        for i, op, n, p in log:
            for f in FAULTS.get(op, OTHER):
                r.append(["io", name, [[i, f]]])
            if op in ("read", "write") and n > 2:
                cut = set(range(1, n)) if th or name == "small" else \
                    set([1, n // 2, n - 1]) | set(m for m in line_ends(name, log, i, p) if m < n)
                err = "e%d" % (E.EIO if op == "read" else E.ENOSPC)
                if not th and len(cut) > 300:
                    cut = set(sorted(cut)[::len(cut) // 300 + 1])
                for k in sorted(cut):
                    r.append(["io", name, [[i, "s%d" % k], [i + 1, err]]])
        if name in ("small", "multi"):
            size = len(RAW[name])
            step = 1 if name == "small" or th else 7
            r += [["fsize", name, n] for n in list(range(0, size, step)) + [size, size + 1]]
        elif name == "long output" or th:
            size = len(RAW[name])
            ns = set([0, 1, size - 1, size]) | set(x + d for x in range(0, size, 4096) for d in (-1, 0, 1) if 0 <= x + d < size)
            r += [["fsize", name, n] for n in sorted(ns)]
        for f in list(doc) + ["o"]:
            r.append(["node", name, f, "directory"])
            r.append(["node", name, f, "loop"])
            if f not in ("o",):
                r.append(["node", name, f, "absent"])
        r.append(["node", name, "o", "full"])
        r.append(["node", name, "o", "no directory"])
    for name in ["small"] + (["multi"] if th else []):
        n = len(LOGS[name]) + 3
        ops = {i: op for i, op, _, _ in LOGS[name]}
        for i, op, _, _ in LOGS[name]:
            for f in PAIR.get(op, OTHER):
                for j in range(i + 1, n):
                    # what runs at j depends on the first fault: all kinds
                    for g in sorted(set(x for k in PAIR for x in PAIR[k])):
                        r.append(["io", name, [[i, f], [j, g]]])
    for sk in skeletons(th):
        r.append(["place", sk, [], ""])
        r.append(["place", sk, [], "old\n" * 3000])
        ss = sites(sk)
        for s in ss:
            for k in range(len(KINDS[s[0]])):
                r.append(["place", sk, [[s, k]], "" if k % 2 else "old\n" * 9])
        if len(ss) <= (14 if th else 8):
            for s, t in itertools.combinations(ss, 2):
                for k in range(0, len(KINDS[s[0]]), 1 if th else 3):
                    for l in range(1, len(KINDS[t[0]]), 2 if th else 4):
                        r.append(["place", sk, [[s, k], [t, l]], ""])
    return r


def line_ends(name, log, i, p):
    """Where the lines of `p` end, as offsets into call i."""
    if p not in DOCS[name]:
        return []
    off = sum(n for k, op, n, q in log if k < i and q == p and op == "read" and n > 0)
    t = DOCS[name][p]
    return [k + 1 - off for k, ch in enumerate(t) if ch == "\n" and k + 1 > off]


def run(prop, *, tier, scratch, out, evidence, known, replay):
    global EXE, LIB
    EXE, LIB = build.cli(), build.preload("faultio")
    DOCS.update(documents(tier == "thorough"))
    import shutil
    for name, doc in DOCS.items():
        d = os.path.realpath(os.path.join(scratch, "ref"))
        c = common.Case(["ref", name])
        r, o, log = launch(c, d, doc, [])
        shutil.rmtree(d)
        RAW[name], REFS[name], LOGS[name] = o or b"", mask(o), log
        if r.rc != 0 or not o:
            print("the faultless run of '%s' fails: exit %s\n%s" % (name, r.rc, r.err[-2000:]))
            REFS[name] = b"none"
    return common.run(prop, cases=cases(tier), body=body, rule=RULE, assumptions=ASSUMPTIONS, tier=tier,
                      scratch=scratch, out=out, evidence=evidence, known=known, replay=replay)
