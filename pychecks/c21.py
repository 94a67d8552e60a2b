"""C21: the build rules run the tools on the right files.

/repo/stl-to-ps/rule.bzl is executed as it is (its Starlark is also Python)
with stand-ins for the build system that record the declared actions.
"""
import ast
import itertools
import os

from . import common
from .common import PsDump, box, build, prog, read, stl, write

RULE = ("stl2pdf with every assignment of the script and 0 to 3 (4) dependencies to 4 (5) roots x names of the rule and of its output "
        "(in the package and in a directory of it, ending in .pdf or not), scad_binary with every assignment of its source and 0 to 3 dependencies; 4 to 129 dependencies, one of another root in any place, in up to 17 roots; the "
        "recorded actions compared with the model's, and the drawing tool run as declared in a tree laid out like the roots.")
ASSUMPTIONS = ["rule.bzl means the same to Bazel as to Python with the recording stand-ins",
               "the action's flags may come in any order and as --flag=value or --flag value"]

ROOTS = ["", "bazel-out/k8-fastbuild/bin", "external/other", "bazel-out/k8-opt/bin", "bazel-out/k8-fastbuild/bin/external/other"] + ["external/r%d" % i for i in range(12)]
BIN = ROOTS[1]


class Bad(Exception):
    pass


class Root:
    def __init__(self, path):
        self.path = path


class File:
    def __init__(self, root, short):
        self.root = Root(root)
        self.short_path = short
        self.path = (root + "/" if root else "") + short
        self.basename = os.path.basename(short)
        self.dirname = os.path.dirname(self.path)
        self.extension = self.basename.rpartition(".")[2]
        self.is_source = not root
        self.is_directory = False

    def __repr__(self):
        return "<%s>" % self.path


class Depset:
    def __init__(self, direct=None, order=None, transitive=None):
        self.items = []
        for t in transitive or []:
            for x in t.to_list():
                if x not in self.items:
                    self.items.append(x)
        for x in direct or []:
            if x not in self.items:
                self.items.append(x)

    def to_list(self):
        return list(self.items)


def flat(x):
    return x.to_list() if isinstance(x, Depset) else list(x)


def text(x):
    return x.path if isinstance(x, File) else str(x)


class Args:
    def __init__(self):
        self.v = []

    def use_param_file(self, *a, **k):
        pass

    def set_param_file_format(self, *a, **k):
        pass

    def add(self, a, b=None, format=None):
        if b is not None:
            self.v.append(text(a))
            a = b
        self.v.append(format % text(a) if format else text(a))
        return self

    def _all(self, a, b, map_each, uniquify, format_each):
        name = None
        if b is not None:
            name, a = a, b
        r = []
        for x in flat(a):
            y = map_each(x) if map_each else text(x)
            if y is None:
                continue
            for z in (y if isinstance(y, list) else [y]):
                z = format_each % z if format_each else z
                if not (uniquify and z in r):
                    r.append(z)
        return name, r

    def add_all(self, a, b=None, map_each=None, format_each=None, before_each=None, omit_if_empty=True, uniquify=False,
                expand_directories=True, terminate_with=None, allow_closure=False):
        name, r = self._all(a, b, map_each, uniquify, format_each)
        if not r and omit_if_empty:
            return self
        if name is not None:
            self.v.append(name)
        for x in r:
            if before_each:
                self.v.append(before_each)
            self.v.append(x)
        if terminate_with:
            self.v.append(terminate_with)
        return self

    def add_joined(self, a, b=None, join_with="", map_each=None, format_each=None, format_joined=None, omit_if_empty=True,
                   uniquify=False, expand_directories=True, allow_closure=False):
        name, r = self._all(a, b, map_each, uniquify, format_each)
        if not r and omit_if_empty:
            return self
        if name is not None:
            self.v.append(name)
        j = join_with.join(r)
        self.v.append(format_joined % j if format_joined else j)
        return self


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Actions:
    def __init__(self, package, out):
        self.package, self.out = package, out
        self.runs, self.declared = [], []

    def declare_file(self, name, sibling=None):
        d = os.path.dirname(sibling.short_path) if sibling else self.package
        f = File(BIN, d + "/" + name if d else name)
        if f.path == self.out.path:
            f = self.out
        if f is not self.out and any(x.path == f.path for x in self.declared):
            raise Bad("declared twice: %s" % f.path)
        self.declared.append(f)
        return f

    def args(self):
        return Args()

    def do_nothing(self, **k):
        pass

    def run(self, outputs, executable, inputs=(), arguments=(), tools=(), **k):
        av = []
        for a in arguments:
            av += a.v if isinstance(a, Args) else [text(a)]
        self.runs.append(Obj(outputs=list(outputs), inputs=flat(inputs), tools=flat(tools or ()),
                             exe=text(executable), args=av))


class Dict(dict):
    """A Starlark dictionary: its views are lists."""
    def keys(self):
        return list(dict.keys(self))

    def values(self):
        return list(dict.values(self))

    def items(self):
        return list(dict.items(self))

    def __or__(self, o):
        return Dict(dict.__or__(self, o))


class Starlark(ast.NodeTransformer):
    """Makes dictionaries Starlark's."""
    def wrap(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(func=ast.Name(id="dict", ctx=ast.Load()), args=[n], keywords=[]), n)

    visit_Dict = visit_DictComp = wrap


def kind(x):
    return {str: "string", int: "int", bool: "bool", list: "list", tuple: "tuple", Dict: "dict", type(None): "NoneType",
            File: "File", Depset: "depset", Args: "Args", Obj: "struct"}.get(type(x), "function" if callable(x) else "struct")


class Runfiles:
    def __init__(self, files=(), transitive_files=None, **k):
        self.files = Depset(list(files), transitive=[transitive_files] if transitive_files else [])

    def merge(self, o):
        return Runfiles(self.files.to_list() + o.files.to_list())

    def merge_all(self, l):
        r = self
        for o in l:
            r = r.merge(o)
        return r


class Attr:
    def __getattr__(self, n):
        return lambda *a, **k: (n, k)


def load_rules():
    p = os.path.join(build.REPO, "stl-to-ps/rule.bzl")
    rules = {}
    g = {"rule": lambda implementation, attrs=None, **k: (implementation, attrs or {}),
         "attr": Attr(), "DefaultInfo": lambda **k: Obj(**k), "depset": Depset, "struct": lambda **k: Obj(**k),
         "load": lambda *a, **k: None, "fail": fail, "Label": lambda x: x, "provider": lambda *a, **k: Obj,
         "native": Obj(), "dict": Dict, "type": kind, "select": lambda d, **k: d, "Args": Args, "File": File,
         "zip": lambda *a: list(zip(*a)), "enumerate": lambda *a: list(enumerate(*a)), "reversed": lambda a: list(reversed(a)),
         "OutputGroupInfo": lambda **k: Obj(**k)}
    with open(p) as f:
        exec(compile(ast.fix_missing_locations(Starlark().visit(ast.parse(f.read(), p))), p, "exec"), g)
    return g


def fail(*a, **k):
    raise Bad("fail(%s)" % (a,))


def context(name, package, out, single, many, tool):
    o = File(BIN, package + "/" + out)
    file = Obj(**single)
    files = Obj(**dict(many, **{k: [v] for k, v in single.items()}))
    if tool:
        setattr(file, "_stl_to_ps", tool)
        setattr(files, "_stl_to_ps", [tool])
    target = lambda fs: Obj(files=Depset(fs), label=Obj(name="t"))
    attr = Obj(**dict({k: target([v]) for k, v in single.items()}, **{k: [target([f]) for f in v] for k, v in many.items()}), name=name)
    return Obj(label=Obj(name=name, package=package), actions=Actions(package, o), file=file, files=files, attr=attr,
               outputs=Obj(out=o), executable=Obj(_stl_to_ps=tool), bin_dir=Root(BIN), genfiles_dir=Root(BIN),
               runfiles=Runfiles, workspace_name="w", configuration=Obj())


def check_actions(c, ctx, out):
    """Every produced file is produced once, everything read is there, and the output is produced."""
    made = {}
    for i, r in enumerate(ctx.actions.runs):
        c.check(r.outputs, "no-outputs", "an action without outputs")
        for f in r.outputs:
            c.check(f.path not in made, "produced-twice", "%s is produced twice" % f.path)
            made[f.path] = i
    c.check(out.path in made, "output", "nothing produces the declared output %s, only %s" % (out.path, sorted(made)))
    for f in ctx.actions.declared:
        c.check(f.path in made, "undeclared", "%s is declared but nothing produces it" % f.path)
    return made


def options(av):
    o, rest, i = {}, [], 0
    while i < len(av):
        a = av[i]
        if a.startswith("--"):
            k, eq, v = a[2:].partition("=")
            if not eq:
                i += 1
                v = av[i] if i < len(av) else None
            o.setdefault(k, []).append(v)
        else:
            rest.append(a)
        i += 1
    return o, rest


TOOL = File("bazel-out/host/bin", "external/stl_to_ps/stl-to-ps/stl-to-ps")


def pdf_case(c, d, ident):
    _, sroot, droots, name, out, dup = ident
    script = File(ROOTS[sroot], "pkg/draw.script")
    deps = [File(ROOTS[r], "pkg/m%d.stl" % i) for i, r in enumerate(droots)]
    if dup:  # dependencies of one name under different roots
        deps = [File(ROOTS[r], "pkg/m%d.stl" % (i // 2)) for i, r in enumerate(droots)]
        deps = [f for i, f in enumerate(deps) if f.path not in [g.path for g in deps[:i]]]
    g = load_rules()
    impl, attrs = g["stl2pdf"]
    ctx = context(name, "pkg", out, {"script": script}, {"deps": deps}, TOOL)
    c.note("stl2pdf(name=%s, script=%s, deps=%s, out=%s)" % (name, script, deps, out))
    c.traces += 1
    try:
        impl(ctx)
    except (Bad, IndexError, KeyError, ZeroDivisionError) as e:
        c.fail("refused", repr(e))
        return
    for r in ctx.actions.runs:
        c.note("%s %s\n  in %s\n  out %s" % (r.exe, r.args, r.inputs, r.outputs))
    o = ctx.outputs.out
    check_actions(c, ctx, o)
    draws = [r for r in ctx.actions.runs if r.exe == TOOL.path]
    convs = [r for r in ctx.actions.runs if os.path.basename(r.exe) == "ps2pdf"]
    c.state("stl2pdf", sroot, str(droots))
    c.state("runs", len(draws), len(convs), name, out)
    c.check(len(draws) == 1 and len(convs) == 1 and len(ctx.actions.runs) == 2, "actions",
            "expected the tool and the converter once each, got %s" % [r.exe for r in ctx.actions.runs])
    if len(draws) != 1 or len(convs) != 1:
        return
    draw, conv = draws[0], convs[0]
    ins = [f.path for f in draw.inputs]
    for f in deps + [script]:
        c.check(f.path in ins, "input", "%s is not an input of the drawing" % f.path)
    c.check(set(ins) <= set(f.path for f in deps + [script, TOOL]), "input-extra", "inputs nobody named: %s" % ins)
    opt, rest = options(draw.args)
    c.check(not rest, "arguments", "left over arguments %s" % rest)
    c.check(len(draw.outputs) == 1, "drawing-outputs", "outputs of the drawing: %s" % draw.outputs)
    ps = draw.outputs[0].path if draw.outputs else ""
    c.check(opt.get("output") == [ps], "output-flag", "--output %s, but the action produces %s" % (opt.get("output"), ps))
    c.check(opt.get("script") == [script.path], "script-flag", "--script %s, not %s" % (opt.get("script"), script.path))
    c.check(opt.get("name") == [name], "name-flag", "--name %s, not %s" % (opt.get("name"), name))
    want = []
    for f in deps + [script]:
        if f.root.path and f.root.path not in want:
            want.append(f.root.path)
    got = opt.get("load_path", [""])
    c.check(len(got) == 1 and [x for x in got[0].split(",")] == (want or [""]), "load-path",
            "--load_path %s, not %s" % (got, want))
    c.check(set(opt) <= {"output", "script", "name", "load_path"}, "options", "unexpected options %s" % sorted(opt))
    c.state("load_path", str(want))
    c.check([f.path for f in conv.inputs] == [ps], "convert-input", "the converter reads %s, not %s" % (conv.inputs, ps))
    c.check([f.path for f in conv.outputs] == [o.path], "convert-output", "the converter produces %s, not %s" % (conv.outputs, o.path))
    c.check([a for a in conv.args if not a.startswith("-")] == [ps, o.path] and len(conv.args) == 2, "convert-args",
            "the converter is run with %s" % conv.args)
    if c.fails or dup:
        return
    # what was declared, run: files where Bazel would put them
    root = os.path.join(os.path.realpath(d), "exec")
    s = ""
    for i, f in enumerate(deps):
        write(os.path.join(root, f.path), stl(box(1 + i * .5, .5, .5)))
        s += 'load m%d="pkg/m%d.stl";\npage { draw m%d { @[5,4]; scale=1:1; view="Z+"; } }\n' % (i, i, i)
    write(os.path.join(root, script.path), s + "page { }\n")
    os.makedirs(os.path.join(root, os.path.dirname(ps)), exist_ok=True)
    r = prog(c, EXE, draw.args, root)
    if r.rc != 0:
        c.fail("run-fails", "the tool fails as declared: exit %s\n%s" % (r.rc, r.err[-1000:]))
        return
    dump = PsDump.read(os.path.join(root, ps))
    if not dump["ok"] or not dump["pages"]:
        c.fail("run-document", "the document is broken: %s" % dump["error"])
        return
    from .c19 import widths
    w = widths(dump["pages"][:-1], dump["pages"][-1]["lines"])
    c.check(w == [1 + i * .5 for i in range(len(deps))], "run-models", "the pages show models of widths %s" % w)
    c.check(name in "\n".join(dump["comments"][:12]), "run-name", "the document does not bear the rule's name")
    c.outcome = "ok"


def scad_case(c, d, ident):
    _, sroot, droots, name, out = ident
    src = File(ROOTS[sroot], "pkg/part.scad")
    deps = [File(ROOTS[r], "pkg/lib%d.scad" % i) for i, r in enumerate(droots)]
    impl, attrs = load_rules()["scad_binary"]
    ctx = context(name, "pkg", out, {"src": src}, {"deps": deps}, None)
    c.note("scad_binary(name=%s, src=%s, deps=%s, out=%s)" % (name, src, deps, out))
    c.traces += 1
    try:
        impl(ctx)
    except (Bad, IndexError, KeyError, ZeroDivisionError) as e:
        c.fail("refused", repr(e))
        return
    for r in ctx.actions.runs:
        c.note("%s %s\n  in %s\n  out %s" % (r.exe, r.args, r.inputs, r.outputs))
    o = ctx.outputs.out
    check_actions(c, ctx, o)
    c.state("scad", sroot, str(droots))
    c.state("runs", len(ctx.actions.runs), name, out)
    c.check(len(ctx.actions.runs) == 1 and os.path.basename(ctx.actions.runs[0].exe) == "openscad", "actions",
            "expected openscad once, got %s" % [r.exe for r in ctx.actions.runs])
    if len(ctx.actions.runs) != 1:
        return
    r = ctx.actions.runs[0]
    c.check(sorted(f.path for f in r.inputs) == sorted(f.path for f in [src] + deps), "inputs", "inputs %s" % r.inputs)
    c.check([f.path for f in r.outputs] == [o.path], "outputs", "outputs %s" % r.outputs)
    # -oFILE, -o FILE and the source, in any order
    a, outs, rest = list(r.args), [], []
    while a:
        x = a.pop(0)
        if x == "-o" and a:
            outs.append(a.pop(0))
        elif x.startswith("-o"):
            outs.append(x[2:])
        else:
            rest.append(x)
    c.check(outs == [o.path], "output-flag", "openscad writes %s, not %s" % (outs, o.path))
    c.check(rest == [src.path], "source", "openscad is run on %s, not %s" % (rest, src.path))
    c.outcome = "ok"


EXE = None


def body(c, d):
    {"pdf": pdf_case, "scad": scad_case}[c.id[0]](c, d, c.id)


def cases(tier):
    th = tier == "thorough"
    r = []
    roots = range(5 if th else 4)
    names = ["draw", "a-b.c", "dir/draw"]
    outs = ["draw.pdf", "other.pdf", "dir/draw.pdf", "dir/sub/draw.pdf", "drawing", "plan.PDF", "x.pdf.pdf", "x.ps", "out.pdf.txt"]
    for n in range(0, 5 if th else 4):
        for droots in itertools.product(roots, repeat=n):
            for s in roots:
                for nm, o in itertools.product(names, outs) if n < 2 or th and n < 4 else [("draw", "draw.pdf"), ("dir/draw", "dir/x.pdf")]:
                    r.append(["pdf", s, list(droots), nm, o, False])
                if n > 1:
                    r.append(["pdf", s, list(droots), "draw", "draw.pdf", True])
    for n in list(range(4, 13)) + [16, 17, 20, 32, 33, 50, 64, 65, 100, 129]:  # many
        for at in range(min(n, 13)):  # the odd one out is in any place
            for a, b in itertools.permutations(roots, 2):
                droots = [a] * n
                droots[at if n < 14 else at * (n - 1) // 12] = b
                r.append(["pdf", a, droots, "draw", "draw.pdf", False])
                if at < 2:
                    r.append(["scad", a, droots, "part", "part.stl"])
    for n in range(4, len(ROOTS) + 1):  # as many roots
        for k in range(0, len(ROOTS), 2):
            droots = [(k + i) % len(ROOTS) for i in range(n)]
            r.append(["pdf", 0, droots, "draw", "draw.pdf", False])
            r.append(["pdf", k, droots, "draw", "draw.pdf", False])
            r.append(["scad", k, droots, "part", "part.stl"])
    for n in range(0, 4):
        for droots in itertools.product(roots, repeat=n):
            for s in roots:
                for nm, o in itertools.product(["part", "dir/part"], ["part.stl", "x.off", "dir/part.stl", "part.scad.stl", "solid"]):
                    r.append(["scad", s, list(droots), nm, o])
    return r


def run(prop, *, tier, scratch, out, evidence, known, replay):
    global EXE
    EXE = build.cli()
    build.psdump()
    return common.run(prop, cases=cases(tier), body=body, rule=RULE, assumptions=ASSUMPTIONS, tier=tier,
                      scratch=scratch, out=out, evidence=evidence, known=known, replay=replay)
