"""Writes /verif/MANIFEST.json from the list of properties that have a check."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import mkprops
import decide, props

TRACE = "TLA+ specification of the graph builder; recorded calls of the real code are validated as behaviours of it with TLC (trace validation)"
TECH = getattr(decide, "TECHNIQUE", {})
NOTE = getattr(decide, "NOTE", {})
claimed = [p["id"] for p in mkprops.P if p["id"] in props.POOLS or p["id"] in decide.EXTRA]
checks = []
for pid in claimed:
    checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --thorough",
                   "technique": TECH.get(pid, TRACE), "level": "model_checking",
                   "level_note": NOTE.get(pid, "Bounded: every recorded behaviour is decided completely by TLC against the deterministic transition system of the specification; the worlds and histories are sampled with a fixed seed, and the specification itself is model checked on small worlds.")})
na = [{"property": p["id"], "reason": decide.NOT_YET.get(p["id"], "check not written yet")} for p in mkprops.P if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(claimed), "claimed", [x["property"] for x in na])
