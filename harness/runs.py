"""The same calls on the same project, again: in other processes, places and
orders (C13), and with the project stored in other ways (C32)."""
import json
import os
import pickle
import random
import subprocess
import sys

import gen
import outputs
import run
import tlc
import validate
from world import World

HERE = os.path.dirname(os.path.abspath(__file__))

# --- one run --------------------------------------------------------------


def shuffled_listings(order):
    """Directories are listed in another order from now on."""
    import posix
    rng = random.Random(order)
    real, realscan = posix.listdir, os.scandir

    def mixed(xs):
        xs = sorted(xs, key=lambda e: os.fsencode(getattr(e, "name", e)))
        if order % 3 == 0:
            xs.reverse()
        elif order % 3 == 1:
            rng.shuffle(xs)
        return xs

    def listdir(path="."):
        return mixed(real(path))

    class scandir:
        def __init__(self, path="."):
            with realscan(path) as it:
                self.it = iter(mixed(it))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass

        def close(self):
            pass

    posix.listdir = os.listdir = listdir
    posix.scandir = os.scandir = scandir


def report_lines(g, norm):
    """What the three reports consist of, mostly in no particular order"""
    text, html, dot = (r.get("rows", r.get("doc")) for r in outputs.reports(g, ("text", "html", "dot")))
    parts = [text, [json.dumps([s["a"], s["h"], sorted(map(tuple, s["dep"])), sorted(map(tuple, s["use"]))]) for s in html["sections"]]
             # sections have a fixed order
             + [json.dumps([s["a"] for s in html["sections"]])] + html["odd"],
             [json.dumps([n["id"], sorted(map(tuple, n["attrs"]))]) for n in dot["nodes"]]
             + [json.dumps([e["s"], e["d"], sorted(map(tuple, e["attrs"]))]) for e in dot["edges"]]
             + [json.dumps([c["label"], sorted(c["ids"])]) for c in dot["clusters"]] + dot["odd"]]
    return [[" ".join(norm(x).split()) for x in p] for p in parts]


def build(scn, variant, root):
    """The observations of one run, made in the current process."""
    mg = run.modulegraph2
    world, ops, opts = scn["world"], scn["ops"], scn["options"]
    kw = dict(use_stdlib_implies=opts.get("stdlib", False), use_builtin_hooks=opts.get("builtin", True))

    def graph():
        return mg.ModuleGraph(**kw), run.Observer(root, scn["vocab"])

    def step(g, obs, op):
        exc, ret = "", None
        try:
            ret = run.perform(g, op, obs, root)
        except BaseException as e:  # noqa: B036
            exc = run.exc_name(e)
        return {"exc": exc, "ret": obs.name(ret.identifier) if ret is not None else []}

    def whole(chosen):
        g, obs = graph()
        for op in chosen:
            step(g, obs, op)
            obs.graph(g)
        return g

    earlier = variant.get("earlier")
    kept = []
    if earlier == "same":
        kept.append(whole(ops))
    elif earlier == "other":
        rng = random.Random(variant["order"])
        chosen = [o for o in ops if rng.random() < 0.6]
        rng.shuffle(chosen)
        kept.append(whole(chosen))
        whole(ops[:1])
    shadow = graph() if earlier == "beside" else None

    g, obs = graph()
    out = []
    for op in ops:
        if shadow is not None:
            step(*shadow, op)
        rec = step(g, obs, op)
        rec.update(obs.graph(g))
        rec["plog"], rec["mlog"] = list(obs.plog), list(obs.mlog)
        rec["reports"] = []
        out.append(rec)
        if shadow is not None:
            report_lines(shadow[0], obs.norm)
    if scn.get("reports"):
        def norm(x):
            return x.replace(json.dumps(root)[1:-1], "$R").replace(root, "$R")

        out[-1]["reports"] = report_lines(g, norm)
    return out


def one(args):
    scn, variant, tmp, key = args
    top = os.path.join(os.path.realpath(tmp), key)
    for d in variant.get("place", ()):
        top = os.path.join(top, d)
    root = os.path.join(top, "r")
    os.makedirs(root)
    world = scn["world"]
    world.materialise(root)

    def func():
        run.setup_child(scn, root, world)
        if variant.get("stdlib"):
            run.modulegraph2.ModuleGraph().add_module(variant["stdlib"])
        if variant.get("listing"):
            shuffled_listings(variant["listing"])
            run.importlib_invalidate()
        return build(scn, variant, root)

    try:
        return key, run.in_child(func, 60)
    finally:
        import shutil
        shutil.rmtree(os.path.join(os.path.realpath(tmp), key), ignore_errors=True)


def worker(path):
    """Entry point of a process with a hash seed of its own."""
    import multiprocessing
    with open(path, "rb") as fp:
        jobs, procs = pickle.load(fp)
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        done = dict(pool.imap_unordered(one, jobs, chunksize=2))
    with open(path + ".out", "w") as fp:
        json.dump(done, fp)


def in_processes(groups, tmp):
    """groups: hash seed -> jobs.  Returns key -> result."""
    procs = []
    for seed, jobs in groups.items():
        path = os.path.join(tmp, f"jobs{seed}")
        with open(path, "wb") as fp:
            pickle.dump((jobs, max(1, 8 // len(groups))), fp)
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        procs.append((path, subprocess.Popen([sys.executable, os.path.join(HERE, "runs.py"), path], env=env)))
    out = {}
    for path, p in procs:
        if p.wait() != 0:
            raise RuntimeError("worker failed")
        with open(path + ".out") as fp:
            out.update(json.load(fp))
    return out


# --- C13 ------------------------------------------------------------------

VARIANTS = [
    dict(seed=0),
    dict(seed=1, listing=3),
    dict(seed=2, listing=4, place=["a b", "\xfc-x"]),
    dict(seed=3, earlier="same", order=1),
    dict(seed=3, earlier="other", order=2, listing=7),
    dict(seed=1, earlier="beside", place=["lib", "python3.12", "site-packages"]),
    dict(seed=2, stdlib="colorsys", listing=10),
    dict(seed=0, earlier="other", order=5, place=["q" * 60]),
]

POOL = [
    (dict(p_sysalias=0.0), 16),
    (dict(p_post=0.6, p_miss=0.6, p_missing=0.3, p_imply=0.6, n_imply=(2, 5), p_exclude=0.4, n_stmt=(2, 5), n_names=(2, 6), p_sysalias=0.0), 24),
    (dict(p_dist=1.0, p_decoy=0.5, p_so=0.2, p_pyc=0.2, p_mypyc=0.3, n_entries=(2, 4), p_sysalias=0.0, w_ops=dict(module=4, script=2, source=1, ctx=1, dist=2)), 20),
    (dict(p_star=0.3, p_global=0.5, p_pkg=0.7, p_from=0.9, n_names=(2, 6), n_stmt=(3, 6), p_pyc=0.3, p_sysalias=0.0), 20),
    (dict(p_post=0.7, p_hookact=0.9, p_hookpkg=0.9, p_pkg=0.8, depth=4, n_child=(2, 5), p_zip=0.0, w_ops=dict(module=3, script=1, source=1, ctx=4, dist=1), p_sysalias=0.0), 16),
    (dict(p_exec=0.3, p_bad=0.2, p_ns=0.2, p_pkgutil=0.1, p_zip=0.3, p_swig=0.2, p_sysalias=0.0), 16),
]

STDLIB = ["colorsys", "textwrap", "string", "bisect", "heapq", "sched", "fnmatch", "shlex", "calendar", "html.parser", "csv", "queue", "json", "statistics",
          "wsgiref.headers", "xml.dom.minidom", "configparser", "pprint", "copy", "graphlib", "zoneinfo", "concurrent.futures", "importlib.abc"]
HEAVY = ["typing", "asyncio", "inspect", "unittest", "ctypes", "multiprocessing", "subprocess", "logging", "ssl", "email", "doctest", "pydoc", "traceback",
         "urllib", "http", "tempfile", "zipfile", "importlib.metadata", "importlib.resources", "pickle", "dis", "ast", "argparse", "tokenize"]


def stdlib_scenario(sid, rng):
    W = World()
    W.entry("p0")
    text = rng.sample(STDLIB, 2)
    W.file("$R/p0", "xa", "py", {"ss": [{"k": "text", "x": "\n".join("import " + t for t in text)}], "bad": "", "exec": "ok", "ns": "", "_render": {}})
    ops = [{"op": "exclude", "form": "list", "names": [h.split(".") for h in HEAVY if rng.random() < 0.9]}, {"op": "misshook", "h": 1, "rules": []}, {"op": "module", "n": ["xa"]}, {"op": "module", "n": rng.choice(STDLIB).split(".")},
           {"op": "source", "body": 2, "text": "import " + rng.choice(STDLIB)}]
    scn = gen.finish(sid, W, [], set())
    scn["ops"] = [o for o in ops if o["op"] != "source" or rng.random() < 0.5]
    scn["options"] = {"builtin": True, "stdlib": True}
    return scn


def scenario(kind, sid, seed, profile):
    if kind == "stdlib":
        scn = stdlib_scenario(sid, random.Random(f"{seed}/{sid}"))
    else:
        scn = gen.make(sid, seed, **profile)
    scn["reports"] = True
    return scn


def variants_for(k):
    """The reference and a few others"""
    rng = random.Random(k)
    return [VARIANTS[0]] + rng.sample(VARIANTS[1:], 4)


def check(res, factor):
    jobs = []
    for k, (profile, n) in enumerate(POOL):
        for i in range(max(1, int(n * factor))):
            jobs.append(("gen", f"{k}.{i}", res.seed, profile))
    for i in range(max(1, int(2 * min(factor, 8)))):
        jobs.append(("stdlib", f"std.{i}", res.seed, {}))
    for i in range(0, len(jobs), 400):
        decide_runs(res, jobs[i:i + 400])
        if len(res.violations) >= 3:
            break


def decide_runs(res, jobs):
    tmp = validate.scratch()
    try:
        groups, cases = {}, []
        for n, job in enumerate(jobs):
            scn = scenario(*job)
            vs = variants_for(job[1])
            keys = []
            for m, v in enumerate(vs):
                key = f"c{n}v{m}"
                groups.setdefault(v["seed"], []).append((scn, v, tmp, key))
                keys.append((key, v))
            cases.append((job, scn, keys))
        judge(res, "same", cases, in_processes(groups, tmp), tmp, lambda v: False)
    finally:
        validate.cleanup(tmp)


def conform(pairs, tmp):
    bad, _ = validate.judge([validate.trace_of(scn, [dict(o, msg="") for o in obs]) for scn, obs in pairs], tmp)
    return not bad


def judge(res, mode, cases, done, tmp, code):
    batch, who = [], []
    for job, scn, keys in cases:
        runs = []
        for key, v in keys:
            r = done[key]
            if "fail" in r:
                res.violations.append((f"scenario {job[1]}: a run did not come to an end: {r['fail']} {v}", {"kind": "runs", "mode": mode, "job": job}))
                break
            runs.append({"obs": r["ok"], "code": code(v)})
        else:
            batch.append({"id": job[1], "mode": mode, "runs": runs})
            who.append((job, scn, keys))
    for i in range(0, len(batch), 100):
        part = batch[i:i + 100]
        path = os.path.join(tmp, "runs.json")
        with open(path, "w") as fp:
            json.dump(part, fp)
        out, stats = tlc.run("Runs", {"BATCH": path})
        recs = tlc.records(out)
        if len(recs) != len(part):
            raise tlc.TlcError(f"{len(recs)} of {len(part)} verdicts\n" + "\n".join(ln for ln in out.splitlines() if "rror" in ln)[:3000] + out[-1500:])
        res.add_stats(stats)
        res.traces += sum(len(c["runs"]) for c in part)
        for rec in recs:
            if rec["kind"] == "FAIL":
                job, scn, keys = who[i + rec["tid"] - 1]
                v = keys[rec["run"] - 1][1]
                if code(v) and conform([(dict(scn, world=x.get("world", scn["world"])), done[key]["ok"]) for key, x in (keys[0], keys[rec["run"] - 1])], tmp):
                    # Both are what the specification says: imports are in
                    # another order in compiled code, and that matters here.
                    res.note("order_dependent")
                    continue
                res.violations.append((f"scenario {job[1]}, call {rec['op']} {json.dumps(scn['ops'][rec['op'] - 1])[:200]}, run {v}: "
                                       + "; ".join(f"{f['cl']}: first {f['a'][:300]} here {f['b'][:300]}" for f in rec["fails"][:3]),
                                       {"kind": "runs", "mode": mode, "job": job, "op": rec["op"], "run": {k: x for k, x in v.items() if k != "world"},
                                        "fails": rec["fails"][:6]}))
    if batch and len(res.samples) < 2:
        b = batch[len(batch) // 2]
        res.samples.append({"scenario": b["id"], "runs": len(b["runs"]), "nodes": len(b["runs"][0]["obs"][-1]["nodes"]), "edges": len(b["runs"][0]["obs"][-1]["edges"])})


# --- C32 ------------------------------------------------------------------

PURE = dict(n_entries=(1, 1), p_zip=0.0, p_so=0.0, p_pyc=0.0, p_decoy=0.0, p_bad=0.0, p_pkgutil=0.0, p_hookpkg=0.0, p_sysalias=0.0, p_dist=0.0,
            p_data=0.05, p_preload=0.0, p_ns=0.25)
# Renames are not known without source, and work is done in another order there.
CODE = dict(PURE, p_as=0.0, p_dup_as=0.0, p_star=0.0, as_code=True)
LAYOUT_POOL = [
    ("spread", dict(PURE), 50),
    ("spread", dict(PURE, p_ns=0.45, p_exec=0.2, depth=4, p_pkg=0.4), 40),
    ("code", dict(CODE), 36),
    ("code", dict(CODE, p_pkg=0.7, p_rel=0.7, p_from=0.8, depth=4), 30),
]


def relayout(world, form, rng):
    """The same project in another layout: any of spread, zip and code."""
    W = World()
    W.bodies, W.scripts = world.bodies, world.scripts
    W.builtin, W.frozen = world.builtin, world.frozen
    entries = [W.entry(f"q{i}") for i in range(rng.randint(2, 4) if "spread" in form else 1)]
    for e in entries:
        if "zip" in form and ("mixed" not in form or rng.random() < 0.5):
            W.kinds[e] = "zip"
    base = world.path[0]

    def copytree(src, dst):
        for e in world.locs[src]:
            if e["kind"] == "dir":
                W.mkdir(dst, e["stem"])
                copytree(src + "/" + e["stem"], dst + "/" + e["stem"])
            else:
                copyfile(e, dst)

    def copyfile(e, dst):
        if e["kind"] == "py" and "code" in form:
            W.file(dst, e["stem"], "pyc", e["body"])
        else:
            W.locs[dst].append(dict(e, file=dst + "/" + os.path.basename(e["file"])))

    def isns(src):
        return not any(e["stem"] == "__init__" for e in world.locs[src])

    def spread(src, parts):
        for e in world.locs[src]:
            dst = rng.choice(entries)
            if e["kind"] != "dir":
                copyfile(e, W.mkdir(dst, *parts))
            elif isns(src + "/" + e["stem"]):
                W.mkdir(dst, *parts, e["stem"])
                spread(src + "/" + e["stem"], parts + [e["stem"]])
            else:
                copytree(src + "/" + e["stem"], W.mkdir(dst, *parts, e["stem"]))

    spread(base, [])
    return W


FORMS = {"spread": [["zip"], ["spread"], ["spread", "zip"], ["spread", "zip", "mixed"], ["spread"]],
         "code": [["code"], ["code", "zip"], ["code", "spread"], ["code", "spread", "zip", "mixed"]]}


def check_layouts(res, factor):
    jobs = []
    for k, (kind, profile, n) in enumerate(LAYOUT_POOL):
        for i in range(max(1, int(n * factor))):
            jobs.append((kind, f"{k}.{i}", res.seed, profile))
    for i in range(0, len(jobs), 600):
        decide_layouts(res, jobs[i:i + 600])
        if len(res.violations) >= 3:
            break


def decide_layouts(res, jobs):
    import multiprocessing
    tmp = validate.scratch()
    try:
        work, cases = [], []
        for n, job in enumerate(jobs):
            kind, sid, seed, profile = job
            scn = gen.make(sid, seed, **profile)
            rng = random.Random(f"layout/{seed}/{sid}")
            keys = []
            for m, form in enumerate([[]] + FORMS[kind]):
                key = f"c{n}v{m}"
                other = dict(scn, world=relayout(scn["world"], form, rng) if form else scn["world"])
                work.append((other, {"form": form}, tmp, key))
                keys.append((key, {"form": form, "world": other["world"]}))
            cases.append((job, scn, keys))
        with multiprocessing.get_context("fork").Pool(8) as pool:
            done = dict(pool.imap_unordered(one, work, chunksize=2))
        judge(res, "layouts", cases, done, tmp, lambda v: "code" in v["form"])
    finally:
        validate.cleanup(tmp)


def replay(res, data):
    job = tuple(data["job"])
    if data["mode"] == "same":
        decide_runs(res, [job])
    else:
        decide_layouts(res, [job])


if __name__ == "__main__":
    worker(sys.argv[1])
