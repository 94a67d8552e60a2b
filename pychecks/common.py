"""Runs enumerated cases on the real program in parallel and reports like mc/engine.cc."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build  # noqa: E402

LIMIT = 30.0  # seconds for one run of the program


class Case:
    """One execution path: `id` (JSON-able) replays it."""

    def __init__(self, ident):
        self.id = ident
        self.fails = []
        self.states = set()
        self.edges = set()
        self.traces = 0
        self.notes = []
        self.outcome = ""
        self._last = None

    def state(self, *x):
        s = hash(("s",) + x)
        self.states.add(s)
        if self._last is not None:
            self.edges.add(hash((self._last, s)))
        self._last = s

    def note(self, t):
        self.notes.append(t)

    def fail(self, key, msg):
        if not any(k == key for k, _ in self.fails):
            self.fails.append((key, msg))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)


_body = None
_scratch = None


def _init(scratch):
    global _scratch
    _scratch = os.path.join(scratch, "w%d" % os.getpid())


def _run(ident):
    c = Case(ident)
    shutil.rmtree(_scratch, ignore_errors=True)
    os.makedirs(_scratch)
    try:
        _body(c, _scratch)
    except Exception as e:  # the check itself failed
        import traceback
        return ident, None, traceback.format_exc()
    return ident, c, None


def run(prop, *, cases, body, rule, assumptions, tier, scratch, out, evidence, known, replay):
    """cases: list of JSON-able ids; body(case, dir) executes one."""
    global _body
    _body = body
    t0 = time.time()
    scratch = os.path.realpath(scratch)
    if replay is not None:
        _init(scratch)
        _, c, err = _run(json.loads(replay, object_hook=None))
        if err:
            print(err)
            return 2
        print("--- case\n%s" % "\n".join(c.notes))
        for k, m in c.fails:
            print("FAILED key=%s\n%s" % (k, m))
        if not c.fails:
            print("passed")
        return 1 if c.fails else 0
    ids = [json.loads(json.dumps(i)) for i in cases]
    jobs = int(os.environ.get("MC_JOBS", "0") or 0) or os.cpu_count() or 4
    states, edges, inputs, outcomes = set(), set(), set(), set()
    traces = execs = 0
    samples, bad, errors = [], {}, []
    step = max(1, len(ids) // 6)
    # hash() of strings must agree between workers: they are forked
    with mp.get_context("fork").Pool(jobs, initializer=_init, initargs=(scratch,)) as pool:
        for n, (ident, c, err) in enumerate(pool.imap_unordered(_run, ids, chunksize=max(1, min(16, len(ids) // (jobs * 4) or 1)))):
            execs += 1
            if err:
                errors.append((ident, err))
                if len(errors) > 200:
                    pool.terminate()
                    break
                continue
            states |= c.states
            edges |= c.edges
            traces += c.traces
            inputs.add(hash(json.dumps(ident)))
            outcomes.add(c.outcome)
            if n % step == 0 and len(samples) < 6:
                samples.append("\n".join(c.notes)[:1500])
            for k, m in c.fails:
                if k not in bad or len(json.dumps(ident)) < len(json.dumps(bad[k][0])):
                    bad[k] = (ident, m, c.notes)
    for i, e in errors[:3]:
        print("case %s: %s" % (json.dumps(i), e), file=sys.stderr)
    if errors and not bad:
        return 2
    # again, alone: what does not fail twice more is not reported
    unconfirmed = 0
    _init(scratch)
    confirmed = {}
    for k, (ident, m, notes) in bad.items():
        ok = True
        for _ in range(2):
            _, c, err = _run(ident)
            ok = ok and c is not None and any(x == k for x, _ in c.fails)
        if ok:
            confirmed[k] = (ident, m, notes)
        else:
            unconfirmed += 1
    nviol = 0
    for k, (ident, m, notes) in sorted(confirmed.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
            continue
        path = os.path.join(out, "%s-%d.txt" % (prop, nviol))
        nviol += 1
        with open(path, "w", encoding="utf-8", errors="replace") as f:
            f.write("property: %s\nkey: %s\ntier: %s\nreplay: python3 /verif/check.py %s --tier=%s '--replay=%s'\n\n%s\n\n--- case\n%s\n"
                    % (prop, k, tier, prop, tier, json.dumps(ident), m, "\n".join(notes)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (k, m.split("\n")[0][:300]))
    wall = time.time() - t0
    if evidence:
        ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": len(states), "transitions": len(edges),
                           "traces_validated_against_impl": traces, "evaluations": execs,
                           "distinct_nontrivial": len(inputs), "distinct_outcomes": len(outcomes),
                           "paths": execs, "unconfirmed_suspects": unconfirmed, "exhaustive": True,
                           "rule": rule, "samples": samples},
              "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol}
        with open(evidence, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d impl runs, %d states, %d transitions, %d outcomes, %d unconfirmed, %.1f s"
          % (prop, tier, execs, traces, len(states), len(edges), len(outcomes), unconfirmed, wall))
    return 1 if nviol else 2 if errors else 0


class Ran:
    def __init__(self, rc, err):
        self.rc = rc  # negative: signal; None: did not end
        self.err = err


def prog(c, exe, args, cwd, env=None, preexec=None, limit=LIMIT):
    c.traces += 1
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
    e.update(env or {})
    try:
        r = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit,
                           preexec_fn=preexec)
        return Ran(r.returncode, r.stdout.decode("latin-1"))
    except subprocess.TimeoutExpired:
        return Ran(None, "no end after %.0f s" % limit)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data.encode("latin-1") if isinstance(data, str) else data)


def read(path):
    """The bytes of a regular file, None if there is none."""
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def stl(vs, name="m"):
    """A tetrahedron-like model of the facets given as triples of points."""
    s = "solid %s\n" % name
    for f in vs:
        a, b, p = f
        u = [b[i] - a[i] for i in range(3)]
        v = [p[i] - a[i] for i in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        l = max(1e-9, sum(x * x for x in n) ** .5)
        s += "  facet normal %s\n    outer loop\n" % " ".join("%g" % (x / l) for x in n)
        for q in f:
            s += "      vertex %s\n" % " ".join("%g" % x for x in q)
        s += "    endloop\n  endfacet\n"
    return s + "endsolid %s\n" % name


def box(x, y, z):
    p = [(i & 1 and x, i & 2 and y, i & 4 and z) for i in range(8)]
    q = [(0, 2, 3), (0, 3, 1), (4, 5, 7), (4, 7, 6), (0, 1, 5), (0, 5, 4), (2, 6, 7), (2, 7, 3),
         (0, 4, 6), (0, 6, 2), (1, 3, 7), (1, 7, 5)]
    return [tuple(p[i] for i in f) for f in q]


class PsDump:
    """What is on the pages of a document, by mc/psdoc.cc."""
    _p = None
    _pid = None

    @classmethod
    def read(cls, path):
        if cls._p is None or cls._pid != os.getpid():
            cls._p = subprocess.Popen([build.psdump()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, encoding="latin-1")
            cls._pid = os.getpid()
        cls._p.stdin.write(path + "\n")
        cls._p.stdin.flush()
        return json.loads(cls._p.stdout.readline())
