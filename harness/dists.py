"""Installed distributions: directories with metadata of all kinds, what the real
code finds in them, judged by spec/Dist.tla."""
import json
import multiprocessing
import os
import random
import shutil
import tempfile

import run
import tlc
import validate
from world import SUFFIXES

ALL = [".py", ".pyc"] + SUFFIXES
INPUT = {"dirs": ["pkg", "__pycache__", "a b", "x,y", 'q"r', "caf\xe9"], "stems": ["mod", "__init__", "n,m", 'd"', "__main__", "py"],
         "suffixes": ALL + [".txt", "", ".pyx", ".py,v", ".PY"]}


def lines(depth, tmp):
    path = os.path.join(tmp, "input.json")
    with open(path, "w") as fp:
        json.dump(INPUT, fp)
    out, stats = tlc.run("DistGen", {"INPUT": path, "DEPTH": str(depth)})
    recs = tlc.records(out)
    if "is violated" in out or not recs:
        raise tlc.TlcError("\n".join(ln for ln in out.splitlines() if not ln.startswith('"{'))[-2500:])
    return sorted({r["line"] for r in recs}), stats


# --- cases ----------------------------------------------------------------

NAMES = ["dist-a", "Dist_A", "dist.a", "other", "x", "dist-a ", "Mixed.Case-1"]


def metadata(rng, name, version):
    form = rng.random()
    heads = []
    n, v = rng.choice(["Name", "Name", "name", "NAME"]), rng.choice(["Version", "version"])
    if form < 0.1:
        heads = [f"{n}: {name}"]
    elif form < 0.2:
        heads = [f"{v}: {version}"]
    elif form < 0.25:
        heads = ["Metadata-Version: 2.1"]
    elif form < 0.32:
        heads = [f"{n}: caf\xe9", f"{v}: {version}"]
    else:
        heads = [f"{n}:{rng.choice([' ', '', '  '])}{name}", f"{v}: {version}"]
        if rng.random() < 0.3:
            heads.reverse()
        if rng.random() < 0.2:
            heads.append(f"{n}: second")
    if rng.random() < 0.7:
        heads.insert(0, "Metadata-Version: 2.1")
    if rng.random() < 0.3:
        heads.insert(rng.randrange(len(heads) + 1), "Summary: Name: nothing")
    if rng.random() < 0.2:
        heads.append("Description: text")
        heads.append("        Name: continued")
    if rng.random() < 0.6:
        heads += ["", f"Name: {rng.choice(NAMES)} in the text", "Version: 99"]
    return heads


def case(sid, seed, corpus, size):
    rng = random.Random(f"dist/{seed}/{sid}")
    path = []
    for k in range(rng.choice(size)):
        form = rng.random()
        loc = f"$R/e{k}" + rng.choice(["", "/lib", "/x y"])
        if form < 0.12:
            path.append({"ok": False, "loc": loc, "form": rng.choice(["none", "file", "zip"]), "items": []})
            continue
        items = []
        for _ in range(rng.randint(0, 4)):
            ver = rng.choice(["1.0", "2.0.post1", "0"])
            name = rng.choice(NAMES)
            fname = f"{name.strip().replace('-', '_')}{rng.randrange(20)}-{ver}" + rng.choice([".dist-info"] * 8 + [".egg-info", ".dist-info.bak", ".DIST-INFO"])
            if any(i["fname"] == fname for i in items):
                continue
            rec = [] if rng.random() < 0.08 else [{"lines": [rng.choice(corpus) for _ in range(rng.choice([0, 1, 3, 12, 40]))], "ok": rng.random() > 0.06}]
            items.append({"fname": fname, "isdir": rng.random() > 0.06, "meta": [] if rng.random() < 0.06 else [{"lines": metadata(rng, name, ver), "ok": True}],
                          "record": rec})
        path.append({"ok": True, "loc": loc, "form": rng.choice(["abs", "abs", "rel", "dots"]), "items": items})
    order = list(range(len(path)))
    if path and rng.random() < 0.15:
        order.append(rng.choice(order))
    if rng.random() < 0.3:
        rng.shuffle(order)
    return {"path": path, "order": order, "crlf": rng.random() < 0.2, "empty": rng.random() < 0.2}


def write(c, root):
    for e in c["path"]:
        loc = e["loc"].replace("$R", root)
        if not e["ok"]:
            if e["form"] != "none":
                os.makedirs(os.path.dirname(loc), exist_ok=True)
                with open(loc, "wb") as fp:
                    fp.write(b"PK\x05\x06" + 18 * b"\0" if e["form"] == "zip" else b"text")
            continue
        os.makedirs(loc, exist_ok=True)
        for it in e["items"]:
            d = os.path.join(loc, it["fname"])
            if not it["isdir"]:
                with open(d, "w") as fp:
                    fp.write("Name: nothing\n")
                continue
            os.mkdir(d)
            nl = "\r\n" if c["crlf"] else "\n"
            for m in it["meta"]:
                with open(d + "/METADATA", "wb") as fp:
                    fp.write("".join(ln + nl for ln in m["lines"]).encode())
            for m in it["record"]:
                with open(d + "/RECORD", "wb") as fp:
                    fp.write("".join(ln + nl for ln in m["lines"]).encode() + (b"" if m["ok"] else b"\xff\xfe.py,,\n"))


def observe(c, root):
    import sys

    from modulegraph2 import _distributions as dd
    os.chdir(root)
    path = []
    for k in c["order"]:
        e = c["path"][k]
        p = e["loc"].replace("$R", root)
        if e["form"] == "rel":
            p = os.path.relpath(p, root)
        elif e["form"] == "dots":
            p = os.path.join(root, "zz", "..", os.path.relpath(p, root))
        path.append(p)
    if c["empty"]:
        path.insert(0, "")
    os.mkdir(os.path.join(root, "zz"))
    listing, seen = [], []
    for d in dd.all_distributions(path):
        wrong = ""
        for f in d.files:
            if not d.contains_file(f):
                wrong = f
        if d.contains_file(root + "/nothing"):
            wrong = "nothing"
        listing.append({"id": os.path.abspath(d.identifier), "name": d.name, "version": d.version, "files": sorted(d.files), "mods": sorted(d.import_names), "contains": wrong})
        seen += sorted(d.files)[:2] + sorted(d.files)[-1:]
    again = [os.path.abspath(d.identifier) for d in dd.all_distributions(iter(path))]
    if again != [d["id"] for d in listing]:
        raise ValueError("listing again is different")
    lookups = []
    import modulegraph2 as mg
    for n in NAMES + ["nothing", "second", "DIST-A"]:
        d = mg.distribution_named(n, path)
        lookups.append({"name": n, "id": "" if d is None else os.path.abspath(d.identifier)})
    forfile = []
    for f in sorted(set(seen))[:20] + [root + "/nothing"]:
        d = dd.distribution_for_file(f, path)
        forfile.append({"name": f, "id": "" if d is None else os.path.abspath(d.identifier)})
    # the default is sys.path
    sys.path[:] = path
    if [os.path.abspath(d.identifier) for d in mg.all_distributions()] != again:
        raise ValueError("listing of sys.path is different")
    return {"listing": listing, "lookups": lookups, "forfile": forfile, "raised": ""}


def _one(job):
    sid, seed, corpus, size, tmp = job
    c = case(sid, seed, corpus, size)
    root = os.path.realpath(tempfile.mkdtemp(prefix="mgv", dir=tmp))
    try:
        write(c, root)
        r = run.in_child(lambda: observe(c, root))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    obs = r.get("ok") or {"listing": [], "lookups": [], "forfile": [], "raised": r["fail"]}
    entries = [{"ok": c["path"][k]["ok"], "loc": c["path"][k]["loc"].replace("$R", root), "items": c["path"][k]["items"]} for k in c["order"]]
    names = sorted({i["fname"] for e in entries for i in e["items"]})
    return {"id": sid, "path": entries, "rk": {n: i + 1 for i, n in enumerate(names)}, "suffixes": ALL, "obs": obs}


ABOUT = {"C19": {"raised", "name", "version", "file-missing", "file-extra", "import-missing", "import-extra", "contains"},
         "C20": {"raised", "listing", "lookup", "for-file", "contains"}}


def check(res, factor, only=None):
    tmp = validate.scratch()
    try:
        corpus, stats = lines(2 if res.tier == "quick" else 3, tmp)
        res.add_stats(stats)
        res.note("record_lines_enumerated", len(corpus))
        quick, _ = (corpus, None)
        jobs = []
        if only is not None:
            jobs = [(only, res.seed, quick, SIZE[int(only.split(".")[0])], tmp)]
        else:
            for i in range(int((300 if res.pid == "C19" else 200) * factor)):
                k = 0 if res.pid == "C19" and i % 2 else 1
                jobs.append((f"{k}.{i}", res.seed, quick, SIZE[k], tmp))
        for i in range(0, len(jobs), 600):
            with multiprocessing.get_context("fork").Pool(8) as pool:
                cases = pool.map(_one, jobs[i:i + 600], chunksize=4)
            judge(res, cases, tmp)
            if len(res.violations) >= 5:
                break
    finally:
        validate.cleanup(tmp)


SIZE = [[1], [0, 1, 2, 3, 4]]


def judge(res, cases, tmp):
    path = os.path.join(tmp, "dist.json")
    with open(path, "w") as fp:
        json.dump(cases, fp)
    out, stats = tlc.run("DistTrace", {"BATCH": path})
    recs = tlc.records(out)
    if len(recs) != len(cases):
        raise tlc.TlcError(f"{len(recs)} of {len(cases)} verdicts\n" + out[-3000:])
    res.add_stats(stats)
    res.traces += len(cases)
    res.note("distributions_seen", sum(len(c["obs"]["listing"]) for c in cases))
    if len(res.samples) < 3:
        c = cases[len(cases) // 2]
        res.samples.append({"entries": len(c["path"]), "found": [d["id"] for d in c["obs"]["listing"]][:4]})
    for r in sorted(recs, key=lambda r: r["tid"]):
        fails = [f for f in r["fails"] if f["cl"] in ABOUT[res.pid]]
        if fails:
            c = cases[r["tid"] - 1]
            res.violations.append((f"search path {c['id']}: " + "; ".join(f"{f['cl']} {f['a']} expected {json.dumps(f['exp'])} observed {json.dumps(f['obs'])}"[:400] for f in fails[:4]),
                                   {"kind": "dists", "case": c["id"], "seed": res.seed, "tier": res.tier, "fails": fails[:10]}))


def replay(res, data):
    res.seed, res.tier = data["seed"], data["tier"]
    check(res, 1, only=data["case"])
