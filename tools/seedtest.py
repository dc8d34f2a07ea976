#!/usr/bin/env python3
"""seedtest.py [--tests] [--check [ID]] [--seed N] NAME...: try planted bugs.

Every planted bug is applied to a copy of /repo that is mounted over /repo in a
namespace of its own, so /repo itself does not change and several can be tried
at the same time.  Not used by any check."""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def within(tree, cmd, timeout=1800):
    # a copy of /verif keeps evidence files apart
    p = subprocess.run(["unshare", "-Urm", "sh", "-c", f"mount --bind {tree}/repo /repo && mount --bind {tree}/verif /verif && cd /repo && {cmd}"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(name, args):
    d = os.path.join(SEEDED, name)
    with open(os.path.join(d, "meta.json")) as fp:
        meta = json.load(fp)
    tree = tempfile.mkdtemp(prefix="seedtest")
    out = [f"{name} ({meta['property']})"]
    try:
        shutil.copytree("/repo", tree + "/repo", symlinks=True)
        shutil.copytree(HERE, tree + "/verif", symlinks=True, ignore=shutil.ignore_patterns(".git", "evidence"))
        shutil.copytree(d, tree + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc, o = within(tree, f"sh {tree}/demo/demo.sh", 300)
        out.append(f"demo unchanged {rc}" + ("" if rc == 0 else " WRONG\n" + o[-1500:]))
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tree + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return "; ".join(out + ["DOES NOT APPLY " + p.stdout])
        rc, o = within(tree, "bash /opt/vp/build.sh")
        if rc:
            return "; ".join(out + ["DOES NOT BUILD " + o[-500:]])
        rc, o = within(tree, f"sh {tree}/demo/demo.sh", 300)
        out.append(f"demo patched {rc}" + ("" if rc else " WRONG"))
        if args.v:
            out.append(o[-600:])
        if args.tests:
            within(tree, f"bash /opt/vp/test.sh {tree}/out.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open(tree + "/out.json"))
            passed = set(res.get("passed", []))
            bad = sorted(base - passed)
            out.append(f"tests: {len(bad)} fail" + (" WRONG " + " ".join(bad[:4]) if bad else ""))
        if args.check is not None:
            for pid in (args.check or meta["property"]).split(","):
                rc, o = within(tree, f"VERIF_SEED={args.seed} /verif/check.py {pid}")
                hit = [ln for ln in o.splitlines() if "VIOLATION" in ln]
                out.append(f"check {pid} rc {rc} " + ("CAUGHT " + o.splitlines()[0][:200] if rc == 1 and hit else "MISSED " + o[-300:]))
    finally:
        shutil.rmtree(tree)
    return "; ".join(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--check", nargs="?", const="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    names = args.names or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(lambda n: one(n, args), names):
            print(r, flush=True)


main()
