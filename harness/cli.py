"""The command line: argument lists enumerated by spec/CliGen.tla, performed with
the real main(), and the same thing done with the API as the specification says."""
import io
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

import outputs
import run
import tlc
import validate

FILES = {
    "base/ma.py": "import mb\nimport colorsys\nfrom pkgx import sub, value\n\ndef f():\n    import mc_missing\n    import dup\n",
    "base/mb.py": "import dup\nfrom . import nothing\n",
    "base/dup.py": "import pkgx\n",
    "base/pkgx/__init__.py": "value = 1\nimport bisect\n",
    "base/pkgx/sub.py": "from .. import beyond\nimport ma\n",
    "base/pkgx/data.txt": "data\n",
    "base/alpha-1.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: dist-a\nVersion: 1.0\n\n",
    "base/alpha-1.0.dist-info/RECORD": "ma.py,,\npkgx/__init__.py,,\npkgx/sub.py,,\n",
    "base/beta-2.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: dist-b\nVersion: 2.0\n\n",
    "base/beta-2.0.dist-info/RECORD": "mb.py,,\n",
    "p1/dup.py": "import only1\nimport stat\n",
    "p1/only1.py": "",
    "p2/dup.py": "import only2\n",
    "p2/only2.py": "import mb\n",
    "p2/mb.py": "import colorsys.nothing\n",
    "p2/alpha-3.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: dist-a\nVersion: 3.0\n\n",
    "p2/alpha-3.0.dist-info/RECORD": "only2.py,,\n",
    "s1.py": "import ma\nif __name__ == '__main__':\n    import bisect\n",
    "s2.py": "import dup\nfrom pkgx.sub import beyond\n",
    "bad.py": "import (\n",
    "old.txt": "old contents, longer than nothing\n",
    "adir/keep": "",
}

GOOD = [["-m"], ["-s"], ["-d"], ["--module"], ["--script"], ["--distribution"],
        ["-f", "dot"], ["-fdot"], ["--format=dot"], ["--format", "html"], ["-f", "html"],
        ["-x", "mb"], ["-xpkgx.sub"], ["--exclude", "colorsys"], ["--exclude=dup"], ["--exclude-stdlib"],
        ["-p", "p1"], ["-pp2"], ["--path=$R/p1"], ["--path", "$R/p2"],
        ["-o", "out"], ["-oold.txt"], ["--output=$R/out2"], ["--output", "nodir/out"], ["-o", "adir"],
        ["-sx", "mb"], ["-dfdot"], ["-h"], ["--help"]]
BAD = [["-q"], ["--nope"], ["-f", "xml"], ["--format=Dot"], ["-fhtm"], ["--module=ma"], ["-sq"], ["--exclude-stdlib=1"], ["-f="]]
NAMES = [["ma"], ["mb", "ma"], ["s1.py"], ["$R/s2.py", "s1.py"], ["dist-a"], ["dist-b", "dist-a"], ["dup"], ["nothere"], ["bad.py"], ["--", "ma"],
         ["dup", "dup"], ["colorsys"]]


def generate(given, items, names, depth, tmp):
    files = {}
    for k, v in (("ITEMS", items), ("NAMES", names), ("ARGS", given)):
        path = os.path.join(tmp, k + ".json")
        with open(path, "w") as fp:
            json.dump(v, fp)
        files[k] = path
    out, stats = tlc.run("CliGen", dict(files, DEPTH=str(depth)))
    if "is violated" in out or "rror" in out.replace("errors", "").replace("No error", ""):
        raise tlc.TlcError("\n".join(ln for ln in out.splitlines() if not ln.startswith("\"{"))[-2500:])
    return tlc.records(out), stats


def write(root):
    for name, text in FILES.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fp:
            fp.write(text)


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, root)] = fp.read().decode("utf-8", "replace")
    return out


def real(x, root):
    return x.replace("$R", root)


def start(root):
    os.chdir(root)
    sys.path[:] = [root + "/base"] + run.STDLIB_PATH
    sys.path_importer_cache.clear()
    run.importlib_invalidate()


def command(argv, root):
    """main() in this process, as "python -m modulegraph2" would run it."""
    from modulegraph2 import __main__ as cli
    start(root)
    before, mods = list(sys.path), set(sys.modules)
    obj = sys.path
    out, err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = out, err
    code = 0
    try:
        cli.main(argv)
    except SystemExit as e:
        if isinstance(e.code, int):
            code = e.code
        elif e.code is not None:
            code = 1
            print(e.code, file=err)
    except BaseException as e:  # noqa: B036
        code = 1
        print(run.describe(e), file=err)
    return {"exit": code, "out": out.getvalue(), "err": err.getvalue(), "restored": list(sys.path) == before and sys.path is obj,
            "new": sorted(set(sys.modules) - mods)}


def process(argv, root):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONPATH"] = run.REPO + os.pathsep + root + "/base"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([sys.executable, "-m", "modulegraph2"] + argv, cwd=root, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100)
    return {"exit": p.returncode, "out": p.stdout, "err": p.stderr, "restored": True, "new": []}


def api(m, root):
    """The calls that the arguments stand for."""
    import modulegraph2 as mg
    start(root)
    sys.path[:] = [real(p, root) for p in m["path"]] + sys.path
    g = mg.ModuleGraph()
    excl = []
    for x in m["excl"]:
        if x == "<stdlib>":
            excl += sorted(sys.stdlib_module_names)
        else:
            excl.append(x)
    g.add_excludes(excl)
    try:
        for n in m["names"]:
            n = real(n, root)
            if m["type"] == "module":
                g.add_module(n)
            elif m["type"] == "script":
                g.add_script(n)
            else:
                g.add_distribution(n)
    except Exception:
        return {"args": m, "err": True, "g": {"nodes": [], "edges": [], "roots": []}, "rk": {}}
    d = outputs.describe(g)
    return {"args": m, "err": False, "g": d, "rk": outputs.ranks(d)}


def perform(argv, m, tmp, sub=False):
    root = os.path.realpath(tempfile.mkdtemp(prefix="mgv", dir=tmp))
    try:
        write(root)
        before = tree(root)
        args = [real(a, root) for a in argv]
        if sub:
            got = process(args, root)
        else:
            r = run.in_child(lambda: command(args, root))
            if "fail" in r:
                return {"fail": r["fail"]}
            got = r["ok"]
        after = tree(root)
        changed = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))
        dest = os.path.relpath(os.path.join(root, real(m["out"], root)), root) if m["out"] else None
        text = got["out"]
        if changed == []:
            file = "none"
        elif changed == [dest]:
            file, text = "report", after.get(dest, "")
        else:
            file = "other: " + " ".join(changed)
        doc = {"none": True}
        if text:
            doc = outputs.parse_html(text) if m["format"] == "html" else outputs.parse_dot(text)
            doc["none"] = False
        twin = {"args": m, "err": False, "g": {"nodes": [], "edges": [], "roots": []}, "rk": {}}
        if not m["err"] and not m["help"]:
            # the file is as it was for the twin
            shutil.rmtree(root)
            os.mkdir(root)
            write(root)
            r = run.in_child(lambda: api(m, root))
            if "fail" in r:
                return {"fail": r["fail"]}
            twin = r["ok"]
        return {"argv": argv, "exit": got["exit"], "message": got["err"].strip() != "", "stdout": "empty" if got["out"] == "" else "text",
                "file": file, "restored": got["restored"], "path": "", "writable": m["out"] not in ("nodir/out", "adir"), "doc": doc, "api": twin,
                "stderr": got["err"][-300:]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _one(job):
    try:
        return job, {"ok": perform(*job)}
    except Exception as e:  # noqa: B902
        return job, {"fail": run.describe(e)}


def longer(rng):
    """A longer command line"""
    before = [rng.choice(GOOD[:27]) for _ in range(rng.randint(0, 5))]
    after = [rng.choice(GOOD[:27]) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.1:
        after.append(rng.choice(BAD))
    names = rng.choice(NAMES)
    if names[0] == "--" and after:
        names = names[1:]
    argv = [a for o in before for a in o] + names + [a for o in after for a in o]
    if rng.random() < 0.05:
        argv.append(rng.choice(["-o", "-p", "--exclude", "-f", "-sx"]))
    return argv


def check(res, factor, only=None):
    tmp = validate.scratch()
    try:
        rng = random.Random(f"cli/{res.seed}")
        depth = 2
        if only is not None:
            recs, stats = generate([only], [], [], 1, tmp)
            recs = [r for r in recs if r["tid"]]
        else:
            given = [longer(rng) for _ in range(int(250 * factor))]
            given += [[], ["-x", "mb"], ["-p", "p1", "-o", "out"], ["--"], ["ma", "-f"], ["ma", "-o"], ["--exclude-stdlib"]]
            recs, stats = generate(given, GOOD + BAD, NAMES, depth, tmp)
        res.add_stats(stats)
        recs = [r for r in recs if not (r["m"]["err"] and {"-h", "--help"} & set(r["argv"])) and r["m"]["groups"] <= 1]
        long = [r for r in recs if r["tid"]]
        short = sorted((r for r in recs if not r["tid"]), key=lambda r: r["argv"])
        if short:
            res.note("command_lines_enumerated", len(short))
            ones = [r for r in short if len(r["argv"]) <= 2]
            rest = [r for r in short if len(r["argv"]) > 2]
            rng.shuffle(rest)
            short = ones + rest[:int(500 * factor * max(1, factor / 3))]
        jobs = [(r["argv"], r["m"], tmp, False) for r in short + long]
        if only is None:
            ok = [r for r in short + long if not r["m"]["help"]]
            jobs += [(r["argv"], r["m"], tmp, True) for r in rng.sample(ok, min(len(ok), 8 if factor <= 1 else 100))]
        for i in range(0, len(jobs), 1200):
            with multiprocessing.get_context("fork").Pool(8) as pool:
                done = pool.map(_one, jobs[i:i + 1200], chunksize=2)
            cases = []
            for job, r in done:
                r = r.get("ok", r)
                data = {"kind": "cli", "argv": job[0], "process": job[3]}
                if "fail" in r:
                    res.violations.append((f"{job[0]}: {r['fail']}", data))
                else:
                    cases.append((r, data))
            judge(res, cases, tmp)
            if len(res.violations) >= 5:
                break
    finally:
        validate.cleanup(tmp)


def judge(res, cases, tmp):
    path = os.path.join(tmp, "cli.json")
    with open(path, "w") as fp:
        json.dump([c for c, _ in cases], fp)
    out, stats = tlc.run("CliTrace", {"BATCH": path})
    recs = tlc.records(out)
    if len(recs) != len(cases):
        raise tlc.TlcError(f"{len(recs)} of {len(cases)} verdicts\n" + out[-3000:])
    res.add_stats(stats)
    res.traces += len(cases)
    if len(res.samples) < 3:
        c = cases[len(cases) // 2][0]
        res.samples.append({"argv": c["argv"], "exit": c["exit"], "nodes": len(c["api"]["g"]["nodes"])})
    for r in sorted(recs, key=lambda r: r["tid"]):
        if r["kind"] != "FAIL":
            continue
        c, data = cases[r["tid"] - 1]
        if any(f["cl"] == "harness" for f in r["fails"]):
            raise tlc.TlcError("meaning changed " + json.dumps(r["fails"]))
        res.violations.append((f"command line {' '.join(c['argv'])}: " + "; ".join(f"{f['cl']} {f['a']} {f['b']}"[:300] for f in r["fails"][:4]) + f" (stderr {c['stderr']!r})",
                               dict(data, fails=r["fails"][:10])))


def replay(res, data):
    check(res, 1, only=data["argv"])
