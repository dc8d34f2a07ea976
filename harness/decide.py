"""Decides properties: runs the pools of a property and everything else there is."""
import json

import cli
import dists
import gen
import outputs
import props
import runs
import scale
import validate

FACTOR = {"quick": 1.0, "thorough": 14.0}
CHUNK = 900


def decide(res, scale=None):
    factor = scale if scale is not None else FACTOR[res.tier]
    pid = res.pid
    found = False
    if pid in props.POOLS:
        pools(res, props.POOLS[pid], factor)
        found = True
    extra = EXTRA.get(pid)
    if extra is not None:
        extra(res, factor)
        found = True
    if not found:
        raise SystemExit(f"unknown property {pid}")


def pools(res, poollist, factor, relevant=None):
    jobs = []
    for k, (make, profile, n) in enumerate(poollist):
        for i in range(max(1, int(n * factor))):
            jobs.append((make, (f"{k}.{i}", res.seed, profile)))
    tmp = validate.scratch()
    try:
        for i in range(0, len(jobs), CHUNK):
            batch(res, jobs[i: i + CHUNK], tmp, relevant or props.RELEVANT[res.pid])
            if len(res.violations) >= 3:
                break
    finally:
        validate.cleanup(tmp)


def sample(trace):
    return {"scenario": trace["id"], "calls": [{k: v for k, v in o.items() if k not in ("items", "rules")} for o in trace["ops"]][:6],
            "files": sum(len(es) for es in trace["world"]["locs"].values()),
            "observed": {"nodes": len(trace["obs"][-1]["nodes"]), "edges": len(trace["obs"][-1]["edges"])}}


def batch(res, jobs, tmp, relevant):
    runs = validate.run_all(jobs, tmp)
    traces, who = [], []
    for (make, args), r in zip(jobs, runs):
        if r[1] is None:
            data = {"kind": "crash", "make": make.__module__ + "." + make.__name__, "args": list(args), "message": r[2]}
            res.violations.append((f"scenario {args[0]}: the build did not come to an end: {r[2]}", data))
        else:
            traces.append(r[1])
            who.append((make, args))
    if not traces:
        return
    bad, stats = validate.judge(traces, tmp)
    res.add_stats(stats)
    res.traces += len(traces)
    for k in ("undecided", "rescheduled", "orderdependent"):
        if stats[k]:
            res.note(k, stats[k])
    if len(res.samples) < 2:
        res.samples.append(sample(traces[len(traces) // 2]))
    for i, rec in sorted(bad.items()):
        got = relevant(props.Facts(traces[i], rec))
        if not got:
            res.note("deviations_of_other_properties")
            continue
        make, args = who[i]
        data = {"kind": "trace", "make": make.__module__ + "." + make.__name__, "args": list(args), "op": rec["op"],
                "call": traces[i]["ops"][rec["op"] - 1], "clauses": got[:12]}
        res.violations.append((f"scenario {args[0]}, call {rec['op']} {json.dumps(data['call'])[:200]}: "
                               + "; ".join(text(c) for c in got[:3]), data))


def text(c):
    def name(x):
        return ".".join(x) if isinstance(x, list) and all(isinstance(y, str) for y in x) else str(x)

    return f"{c['cl']} {name(c['a'])} {name(c['b'])} expected {json.dumps(c['exp'])[:200]} observed {json.dumps(c['obs'])[:300]}"


def replay(res, data):
    if data["kind"] in REPLAY:
        return REPLAY[data["kind"]](res, data)
    mod, func = data["make"].split(".")
    make = getattr(__import__(mod), func)
    sid, seed, profile = data["args"]
    tmp = validate.scratch()
    try:
        batch(res, [(make, (sid, seed, profile))], tmp, props.RELEVANT.get(res.pid, props.anything))
    finally:
        validate.cleanup(tmp)


EXTRA = {"C13": runs.check, "C14": scale.check, "C19": dists.check, "C20": dists.check, "C24": outputs.check_html_text, "C25": outputs.check_dot, "C26": cli.check, "C32": runs.check_layouts}
REPLAY = {"scale": scale.replay, "runs": runs.replay, "dists": dists.replay, "outputs": outputs.replay, "cli": cli.replay}
NOT_YET = {}
