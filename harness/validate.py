"""Runs scenarios on the real code and validates the traces with TLC."""
import concurrent.futures
import json
import multiprocessing
import os
import shutil
import tempfile

import run
import tlc

KEYS = ("op", "n", "names", "form", "items", "rules", "h", "path", "body", "name", "calls", "raise")


def trace_of(scn, obs, effects=None):
    ops = []
    for o in scn["ops"]:
        d = {k: v for k, v in o.items() if k in KEYS}
        ops.append(d)
    strings = set(scn["vocab"])

    def walk(x):
        if isinstance(x, str):
            strings.add(x)
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)

    walk(ops)
    t = {"id": scn["id"], "world": scn["world"].abstract(strings), "ops": ops, "obs": obs,
         "ordered": scn["ordered"], "vocab": scn["vocab"], "builtin": scn["options"].get("builtin", True)}
    if effects is not None:
        t["effects"] = effects
    return t


def _one(args):
    make, a, tmp = args
    scn = make(*a[:2], **a[2])
    scn["tmp"] = tmp
    res = run.run_scenario(scn)
    if "fail" in res:
        return scn["id"], None, res["fail"]
    return scn["id"], trace_of(scn, res["ok"], res.get("effects")), None


def run_all(jobs, tmp, procs=8, maxfail=4):
    """jobs: list of (make function, (sid, seed, profile)).  Gives up after a
    number of scenarios that crash or hang."""
    ctx = multiprocessing.get_context("fork")
    out, bad = [], 0
    with ctx.Pool(procs) as pool:
        for r in pool.imap(_one, [(m, a, tmp) for m, a in jobs], chunksize=2):
            out.append(r)
            if r[1] is None:
                bad += 1
                if bad >= maxfail:
                    pool.terminate()
                    break
    return out


def _tlc(traces, tmp, sched, ordered, name, workers, timeout):
    path = os.path.join(tmp, f"batch{name}.json")
    with open(path, "w") as fp:
        json.dump(traces, fp)
    try:
        return tlc.run("MGTrace", {"BATCH": path, "SCHED": sched, "ORDERED": "1" if ordered else "0"}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)


def validate(traces, tmp, sched="std", ordered=True, workers=4, parts=2, timeout=int(__import__("os").environ.get("VT","800"))):
    """Returns (failures: trace index -> record, stats)."""
    n = max(1, min(parts, len(traces) // 20 + 1))
    groups = [list(range(i, len(traces), n)) for i in range(n)]
    fails, total = {}, {"generated": 0, "distinct": 0, "done": 0, "undecided": 0}

    def one(k):
        return k, *_tlc([traces[i] for i in groups[k]], tmp, sched, ordered, f"{sched}{int(ordered)}-{k}", workers, timeout)

    def absorb(group, out, stats):
        recs = tlc.records(out)
        seen = set()
        for rec in recs:
            idx = group[rec["tid"] - 1]
            seen.add(idx)
            if rec["kind"] == "FAIL":
                fails[idx] = rec
            else:
                total["done"] += 1
        total["generated"] += stats["generated"]
        total["distinct"] += stats["distinct"]
        rest = [i for i in group if i not in seen]
        if rest and len(rest) == len(group) and (len(group) == 1 or not stats["distinct"]):
            if len(group) == 1:
                total["undecided"] += 1
                total.setdefault("why", []).append(traces[group[0]]["id"])
                return
            raise tlc.TlcError("TLC failed:\n" + "\n".join(ln for ln in out.splitlines() if "rror" in ln)[:3000] + out[-1500:])
        if rest:
            # TLC stops at the first trace that the specification cannot
            # evaluate: find it, the others have a verdict.
            mid = (len(rest) + 1) // 2
            for part in (rest[:mid], rest[mid:]):
                if part:
                    absorb(part, *_tlc([traces[i] for i in part], tmp, sched, ordered, f"{sched}{int(ordered)}-rest", 8, timeout))

    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        results = list(ex.map(one, range(n)))
    for k, out, stats in results:
        absorb(groups[k], out, stats)
    return fails, total


LOGS = ("misshook-imps", "posthook-calls", "misshook-calls", "posthook-early")
FIRM = ("exc", "odd", "ret", "node-odd")


def judge(traces, tmp, limit=400, **kw):
    """Decide traces: returns (violations: trace index -> record, stats).

    The order in which delayed work is done is not part of any property.  A
    trace that does not follow the schedule of the implementation is compared
    with other schedules of the specification.  It is a violation when it fits
    none of them and they all agree on what is expected, or when it has an
    exception or inconsistency that none of them has."""
    fails, stats = validate(traces, tmp, **kw)
    stats["rescheduled"] = stats["orderdependent"] = 0
    if not fails:
        return {}, stats
    idxs = sorted(fails)[:limit]
    sub = [traces[i] for i in idxs]
    alive = {i: [] for i in idxs}
    for sched in ("std", "rev", "nrev", "both", "perm2", "perm3", "perm5"):
        f, _ = validate(sub, tmp, sched=sched, ordered=False, **kw)
        for k, i in enumerate(idxs):
            if i in alive:
                if k in f:
                    alive[i].append(f[k])
                else:
                    del alive[i]
                    stats["rescheduled"] += 1
    result = {}
    for i, recs in alive.items():
        def key(r, cls=None, without=()):
            return (r["op"], frozenset(json.dumps(x, sort_keys=True) for x in r["fails"]
                                       if x["cl"] not in without and (cls is None or x["cl"] in cls)))

        if all(key(r, without=LOGS) == key(recs[0], without=LOGS) for r in recs):
            rec = dict(recs[0])
            if any(key(r) != key(recs[0]) for r in recs):
                # hook calls depend on the order of work
                rec["fails"] = [x for x in rec["fails"] if x["cl"] not in LOGS]
            if rec["fails"]:
                result[i] = rec
                continue
        firm = [frozenset((r["op"], x["cl"], json.dumps(x["obs"])) for x in r["fails"] if x["cl"] in FIRM) for r in recs]
        if frozenset.intersection(*firm):
            result[i] = recs[0]
        else:
            stats["orderdependent"] += 1
    return result, stats


def scratch():
    return tempfile.mkdtemp(prefix="mgvrun")


def cleanup(tmp):
    shutil.rmtree(tmp, ignore_errors=True)
