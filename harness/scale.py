"""The patterns of spec/Scale.tla as projects of any size (C14)."""
import json
import os
import shutil
import tempfile

import gen
import run
import tlc
import validate
from world import World, blk, body, frm, imp, w

# --- patterns -------------------------------------------------------------


class Project:
    def __init__(self, n, code):
        self.n, self.kind = n, "pyc" if code else "py"
        self.W = World()
        self.loc = self.W.entry("p0")
        self.ops = []
        self.seen = 0

    def mod(self, dotted, ss=(), raw=None, loc=None):
        b = body(list(ss))
        if raw is not None:
            b["_render"]["raw"] = raw
        self.W.module(loc or self.loc, dotted, self.kind, b)

    def pkg(self, dotted, ss=()):
        self.W.package(self.loc, dotted, self.kind, body(list(ss)))

    def add(self, dotted):
        self.ops.append({"op": "module", "n": dotted.split(".")})

    def ks(self):
        return [f"k{i}" for i in range(self.n)]


def text(x):
    return {"k": "text", "x": x}


def nest(n, make, inner=()):
    """make(i, statements) n times around each other"""
    ss = list(inner)
    for i in reversed(range(n)):
        ss = [make(i, ss)]
    return ss


PATTERNS = {}


def pattern(small=None, big=(40, 1500), huge=(5000,), forms=(False, True)):
    def deco(f):
        PATTERNS[f.__name__.rstrip("_")] = (f, small or (1, 2, 3, 6), big, huge, forms)
        return f
    return deco


@pattern(big=(40, 1500), huge=(4000,))
def chain(p):
    for i in range(p.n):
        p.mod(f"m{i}", [imp(f"m{i + 1}")] if i < p.n - 1 else [])
    p.add("m0")


@pattern(small=(2, 3, 6), big=(40, 1200), huge=(4000,))
def ring(p):
    for i in range(p.n):
        p.mod(f"m{i}", [imp(f"m{(i + 1) % p.n}")])
    p.add("m0")


@pattern(big=(300, 1200))
def fan(p):
    p.mod("m", [imp(k) for k in p.ks()])
    for k in p.ks():
        p.mod(k)
    p.add("m")


@pattern(big=(255, 256, 257, 3000), huge=(40000,))
def missing(p):
    p.mod("m", [imp(k) for k in p.ks()])
    p.add("m")


@pattern(big=(255, 257, 3000))
def onestatement(p):
    p.mod("m", [imp(*p.ks())])
    p.add("m")


@pattern(big=(3000,))
def longline(p):
    p.mod("m", [imp(k) for k in p.ks()], raw="; ".join("import " + k for k in p.ks()))
    p.add("m")


@pattern(big=(300, 1200), huge=(4000,))
def fromfan(p):
    p.mod("m", [frm("p", *p.ks())])
    p.pkg("p")
    for k in p.ks():
        p.mod("p." + k)
    p.add("m")


@pattern(big=(300, 3000))
def fromvariables(p):
    p.mod("m", [frm("y", *p.ks())])
    p.mod("y", [w(k) for k in p.ks()])
    p.add("m")


@pattern(big=(300, 2500), huge=(5000,))
def elifs(p):
    raw = "".join(f"{'el' if i else ''}if x == {i}:\n  import {k}\n" for i, k in enumerate(p.ks()))
    ss = []
    if p.n < 50:
        for k in reversed(p.ks()):
            ss = [blk("if", body=[imp(k)], **({"orelse": ss} if ss else {}))]
    p.mod("m", ss, raw=raw)
    p.add("m")


@pattern(big=(300, 1500), huge=(20000,))
def functions(p):
    p.mod("m", [blk("def", f"f{i}", body=[imp(k)]) for i, k in enumerate(p.ks())])
    p.add("m")


@pattern(big=(300, 1500))
def methods(p):
    p.mod("m", [blk("class", f"C{i}", body=[blk("def", "f", body=[imp(k)])]) for i, k in enumerate(p.ks())])
    p.add("m")


@pattern(big=(50, 90), huge=(95,))
def nestedfunctions(p):
    p.mod("m", nest(p.n, lambda i, ss: blk("def", f"f{i}", body=[imp(f"k{i}")] + ss)))
    p.add("m")


@pattern(big=(50, 90), huge=(95,))
def nestedclasses(p):
    p.mod("m", nest(p.n, lambda i, ss: blk("class", f"C{i}", body=[imp(f"k{i}")] + ss)))
    p.add("m")


@pattern(big=(50, 90), huge=(95,))
def nestedifs(p):
    p.mod("m", nest(p.n, lambda i, ss: blk("if", body=[imp(f"k{i}")] + ss)))
    p.add("m")


@pattern(small=(1, 2, 4), big=(9, 17), huge=(18,))
def nestedtry(p):
    p.mod("m", nest(p.n, lambda i, ss: blk("try", body=[imp(f"k{i}")] + ss, handler=[])))
    p.add("m")


@pattern(big=(300, 1500))
def handlers(p):
    p.mod("m", [blk("try", body=[], **{f"handler{i}": [imp(k)] for i, k in enumerate(p.ks())})])
    p.add("m")


@pattern(big=(300, 1500))
def cases(p):
    p.mod("m", [blk("match", **{f"case{i}": [imp(k)] for i, k in enumerate(p.ks())})])
    p.add("m")


@pattern(big=(300, 1500))
def comprehension(p):
    """Imports between code objects that are not functions"""
    ss, raw = [], []
    for k in p.ks():
        ss.append(imp(k))
        raw += [f"[c for c in range(3) if c == {len(raw)}]", "import " + k]
    p.mod("m", ss, raw="\n".join(raw))
    p.add("m")


def z(p, line):
    p.mod("m", [imp("z")], raw=line + "\nimport z\n")
    p.add("m")


@pattern(big=(300, 5000), huge=(8000,))
def sum_(p):
    z(p, "x = " + " + ".join(f"q{i}" for i in range(p.n)))


@pattern(big=(300, 5000), huge=(8000,))
def attributes(p):
    z(p, "x = q" + ".a" * p.n)


@pattern(big=(300, 3000), huge=(8000,))
def calls(p):
    z(p, "x = q" + ".a()" * p.n)


@pattern(big=(300, 70000))
def list_(p):
    z(p, "x = [" + ", ".join(f"q{i}" for i in range(p.n)) + "]")


@pattern(big=(5000,), huge=(200000,))
def blanklines(p):
    z(p, "\n" * p.n)


@pattern(big=(250, 3000))
def parameters(p):
    z(p, "def f(" + ", ".join(f"q{i}: int = {i}" for i in range(p.n)) + "): pass")


@pattern(big=(5000,), huge=(100000,))
def strings(p):
    z(p, "x = ['" + "', '".join(f"import q{i}" for i in range(p.n)) + "']")


@pattern(big=(253, 254, 255, 256, 257, 66000), huge=(140000,))
def names(p):
    p.mod("m", [w(f"v{i}") for i in range(p.n)] + [imp("z"), frm("y", "a", "b")])
    p.add("m")


@pattern(big=(253, 254, 255, 256, 257, 66000), huge=(140000,))
def constants(p):
    raw = "def f():\n" + "".join(f"  x = {i}.5\n" for i in range(p.n)) + "  import z\n  from y import a, b\n"
    p.mod("m", [blk("def", "f", body=[imp("z"), frm("y", "a", "b")])], raw=raw)
    p.add("m")


def deepnames(n):
    return [".".join(["p"] * i) for i in range(1, n + 1)]


@pattern(big=(30, 90), huge=(100,))
def deep(p):
    for d in deepnames(p.n):
        p.pkg(d)
    p.add(d)


@pattern(big=(30, 90), huge=(150,), forms=(False,))
def deepmissing(p):
    p.add(deepnames(p.n)[-1])


@pattern(big=(30, 90), huge=(100,))
def deeprelative(p):
    for i, d in enumerate(deepnames(p.n)):
        p.pkg(d, [frm("", "p", lvl=1)] if i < p.n - 1 else [])
    p.add("p")


@pattern(big=(300, 3000))
def dots(p):
    p.pkg("p")
    p.mod("p.m", [frm("x", "y", lvl=p.n + 1)])
    p.add("p.m")


@pattern(big=(40, 1000), huge=(4000,))
def reexports(p):
    for i in range(p.n):
        p.mod(f"m{i}", [frm(f"m{i + 1}", "z") if i < p.n - 1 else imp("z")])
    p.add("m0")


@pattern(big=(40, 250), huge=(800,))
def stars(p):
    for i in range(p.n):
        p.mod(f"m{i}", ([frm(f"m{i + 1}", "*")] if i < p.n - 1 else []) + [w(f"w{i}")])
    p.add("m0")


@pattern(big=(40, 300), huge=(1500,))
def packages(p):
    for i in range(p.n):
        p.pkg(f"m{i}", [imp(f"m{i + 1}.s")] if i < p.n - 1 else [])
        if i:
            p.mod(f"m{i}.s")
    p.add("m0")


@pattern(big=(300, 1000))
def renames(p):
    p.mod("m", [imp(("z", f"a{i}")) for i in range(p.n)])
    p.add("m")


@pattern(big=(300, 1000))
def roots(p):
    for k in p.ks():
        p.mod(k)
        p.add(k)


@pattern(big=(300, 1000), forms=(False,))
def scripts(p):
    for i in range(p.n):
        p.ops.append({"op": "script", "path": p.W.script(f"bin/s{i}", body([]))})


@pattern(big=(300, 3000), forms=(False,))
def source(p):
    p.ops.append({"op": "source", "body": p.W.add_body(body([imp(k) for k in p.ks()]))})


@pattern(big=(300, 3000), forms=(False,))
def implies(p):
    p.mod("m")
    p.ops.append({"op": "imply", "items": [{"n": ["m"], "k": "refs", "to": [], "refs": [[k] for k in p.ks()]}]})
    p.add("m")


@pattern(big=(300, 3000))
def excludes(p):
    p.mod("m", [imp(k) for k in p.ks()])
    p.ops.append({"op": "exclude", "form": "list", "names": [[k] for k in p.ks()]})
    p.add("m")


@pattern(big=(100, 500), huge=(2000,))
def wholepackage(p):
    p.mod("m")
    p.pkg("p")
    for i, k in enumerate(p.ks()):
        p.mod("p." + k)
        p.pkg(f"p.s{i}")
    p.add("m")
    p.ops.append({"op": "ctx", "calls": [{"c": "import_package", "from": ["m"], "n": ["p"]}]})


@pattern(big=(40, 200), huge=(400,))
def entries(p):
    p.mod("m", [imp(k) for k in p.ks()])
    for i, k in enumerate(p.ks()):
        p.mod(k, loc=p.W.entry(f"e{i}"))
    p.add("m")


@pattern(big=(40, 250), huge=(800,))
def distributions(p):
    p.mod("m", [imp(k) for k in p.ks()])
    for i, k in enumerate(p.ks()):
        p.mod(k)
        p.W.add_dist("$R/p0", f"dist{i}", "1", [f"$R/p0/{k}." + p.kind], [k], f"d{i}-1.dist-info")
    p.add("m")


# --- running --------------------------------------------------------------


def project(name, n, code):
    p = Project(n, code)
    PATTERNS[name][0](p)
    return p


def small(sid, seed, name, n, code):
    """A scenario for the specification of the graph builder"""
    p = project(name, n, code)
    return gen.finish(sid, p.W, p.ops, {"m", "y", "z", "p", "a", "b"} | {f"v{i}" for i in range(n)} | {f"w{i}" for i in range(n)})


def observed(args):
    name, n, code, tmp = args
    mg = run.modulegraph2
    p = project(name, n, code)
    for o in p.ops:
        if o["op"] == "source":
            from world import render
            o["text"] = render(p.W.bodies[o["body"] - 1], "source").decode()
    root = os.path.join(os.path.realpath(tempfile.mkdtemp(dir=tmp)), "r")
    os.mkdir(root)
    p.W.materialise(root)
    scn = {"world": p.W}

    def func():
        run.setup_child(scn, root, p.W)
        obs = run.Observer(root, [])
        g = mg.ModuleGraph(use_stdlib_implies=False)
        error = ""
        try:
            for op in p.ops:
                run.perform(g, op, obs, root)
        except BaseException as e:  # noqa: B036
            error = run.describe(e)
        first = g.find_node("m") or g.find_node("m0")
        return {"error": error, "nodes": [[obs.name(x.identifier), type(x).__name__] for x in g.nodes()],
                "edges": [[obs.name(s.identifier), obs.name(d.identifier), run.attr(e)] for s, d, es in g.edges() for e in es],
                "roots": [obs.name(x.identifier) for x in g.roots()],
                "names": sorted(x for x in getattr(first, "globals_written", ()) if not x.startswith("__")) if name in ("names", "stars") else [],
                "dists": [obs.norm(d.identifier) for d in g.distributions(reachable=False)]}

    try:
        r = run.in_child(func, 600)
    finally:
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    o = r.get("ok") or {"error": r["fail"], "nodes": [], "edges": [], "roots": [], "names": [], "dists": []}
    return {"pattern": name, "size": n, "code": code, "obs": o}


def check(res, factor, only=None):
    jobs, little = [], []
    for name, (_, sm, big, huge, forms) in PATTERNS.items():
        sizes = sm + tuple(big) + (tuple(huge) if res.tier == "thorough" else ())
        for n in sizes:
            for code in forms:
                if only is None or only == [name, n, code]:
                    jobs.append((name, n, code))
                    if n in sm:
                        little.append((small, (f"{name}.{n}.{'code' if code else 'source'}", 0, dict(name=name, n=n, code=code))))
    import decide
    import multiprocessing
    tmp = validate.scratch()
    try:
        if little:
            # the patterns are what the specification says at small sizes
            decide.batch(res, little, tmp, lambda f: list(f.fails))
        jobs.sort(key=lambda j: -j[1])
        with multiprocessing.get_context("fork").Pool(8) as pool:
            cases = pool.map(observed, [(*j, tmp) for j in jobs], chunksize=1)
        path = os.path.join(tmp, "scale.json")
        with open(path, "w") as fp:
            json.dump(cases, fp)
        out, stats = tlc.run("ScaleTrace", {"BATCH": path}, xmx="12g")
        recs = tlc.records(out)
        if len(recs) != len(cases):
            raise tlc.TlcError(f"{len(recs)} of {len(cases)} verdicts\n" + "\n".join(ln for ln in out.splitlines() if "rror" in ln)[:3000] + out[-1500:])
        res.add_stats(stats)
        res.traces += len(cases)
        res.note("patterns", len(PATTERNS))
        res.note("largest", max(c["size"] for c in cases))
        res.samples.append({"pattern": cases[0]["pattern"], "size": cases[0]["size"], "nodes": len(cases[0]["obs"]["nodes"]), "edges": len(cases[0]["obs"]["edges"])})
        for r in sorted(recs, key=lambda r: r["tid"]):
            if r["fails"]:
                c = cases[r["tid"] - 1]
                res.violations.append((f"pattern {c['pattern']} of size {c['size']} ({'compiled' if c['code'] else 'source'}): "
                                       + "; ".join(f"{f['cl']} {f['a']}"[:300] for f in r["fails"][:4]),
                                       {"kind": "scale", "pattern": c["pattern"], "size": c["size"], "code": c["code"], "fails": r["fails"][:6]}))
    finally:
        validate.cleanup(tmp)


def replay(res, data):
    check(res, 1, [data["pattern"], data["size"], data["code"]])
