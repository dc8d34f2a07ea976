"""Running TLC on a batch of recorded traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def java_cmd():
    """The java command line of the installed tlc wrapper."""
    return ["tlc"]


def run(module, env=None, cfg=None, workers=8, timeout=800, extra=(), xmx="6g"):
    """Returns (stdout, stats).  The model is run in a scratch copy of the spec."""
    tmp = tempfile.mkdtemp(prefix="mgvtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), tmp)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = f"-Xss256m -Xmx{xmx} -XX:+UseParallelGC"
        e.update(env or {})
        cmd = java_cmd() + ["-workers", str(workers), "-metadir", os.path.join(tmp, "states"), "-config", cfg or module + ".cfg",
                            "-noGenerateSpecTE", *extra, module + ".tla"]
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out = p.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        stats = {"rc": p.returncode, "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
        return out, stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def records(out):
    """The JSON records printed by the specification."""
    recs = []
    for ln in out.splitlines():
        ln = ln.strip()
        if ln.startswith('"{') and ln.endswith('}"'):
            try:
                recs.append(json.loads(json.loads(ln)))
            except ValueError:
                try:
                    recs.append(json.loads(ln[1:-1].replace('\\"', '"').replace("\\\\", "\\")))
                except ValueError:
                    raise TlcError("cannot parse " + ln)
    for r in recs:
        if "fails" in r:
            r["fails"] = [json.loads(x) if isinstance(x, str) else x for x in r["fails"]]
    return recs
