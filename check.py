#!/opt/venv/bin/python
"""check.py ID [--thorough] [--replay FILE] [-v]: decide one property.

Exit status 0: the property held on everything explored, 1: a violation, with a
line VIOLATION property=ID replay=FILE."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))


class Result:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.level = "model_checking"
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []  # (description, replay data)
        self.assumptions = []

    def add_stats(self, st):
        self.states += st["distinct"]
        self.transitions += st["generated"]

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.thorough else "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))

    import decide
    t = time.time()
    res = Result(args.pid, tier, seed)
    if args.replay:
        with open(args.replay) as fp:
            decide.replay(res, json.load(fp))
    else:
        decide.decide(res, args.scale)

    known = known_findings(args.pid)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fresh = []
    for text, data in res.violations:
        key = data.get("key", "")
        if key and key in known:
            print(f"KNOWN-FINDING: property={args.pid} {known[key]}")
        else:
            fresh.append((text, data))
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
           "samples": res.samples[:4] or ["none"], **res.notes}
    ev = {"property": args.pid, "tier": tier, "seed": seed, "level": res.level, "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t, 2), "violations": len(fresh)}
    if not args.replay:
        with open(os.path.join(HERE, "evidence", args.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
    if fresh:
        path = os.path.join(HERE, "evidence", f"replay-{args.pid}.json")
        if not args.replay:
            with open(path, "w") as fp:
                json.dump(fresh[0][1], fp, indent=1)
        for text, _ in fresh[: 20 if args.v else 3]:
            print(text)
        print(f"VIOLATION property={args.pid} replay={args.replay or path}")
        return 1
    print(f"{args.pid}: held ({tier}, seed {seed}): {res.traces} traces, {res.states} states, {json.dumps(res.notes)}, {ev['wall_s']} s")
    return 0


def known_findings(pid):
    """Lines 'finding: property=ID key=KEY text'; lines with 'fixed:' are history."""
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as fp:
        for ln in fp:
            w = ln.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == f"property={pid}" and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: B036
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
