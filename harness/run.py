"""Runs scenarios on the real code, each in a forked child, and records what the
public API shows after every operation.

A scenario is a dict: id, world (World), ops, options {stdlib, hooks, builtin}.
"""
import io
import json
import os
import re
import shutil
import signal
import sys
import sysconfig
import tempfile
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import modulegraph2  # noqa: E402

assert os.path.realpath(modulegraph2.__file__).startswith(os.path.realpath(REPO) + "/"), modulegraph2.__file__
import modulegraph2.__main__  # noqa: E402
from modulegraph2 import _dotbuilder, _htmlbuilder  # noqa: E402, F401

# Everything the children need later on is imported before they are forked.
import pkgutil  # noqa: E402, F401
import zipimport  # noqa: E402, F401
import encodings.latin_1, encodings.utf_8_sig, encodings.ascii, encodings.cp437  # noqa: E402, E401, F401

STDLIB_PATH = [p for p in sys.path if p and "site-packages" not in p and os.path.isdir(p)
               and os.path.realpath(p) in {os.path.realpath(x) for x in
                                           (sysconfig.get_path("stdlib"), sysconfig.get_path("platstdlib"),
                                            os.path.join(sysconfig.get_path("stdlib"), "lib-dynload"))}]


def split(name):
    m = re.match(r"(\.+)(.*)$", name, re.S)
    if m:
        return [m.group(1)] + (m.group(2).split(".") if m.group(2) else [])
    if "/" in name:
        return [name]
    return name.split(".")


def attr(e):
    return [bool(e.is_optional), bool(e.is_global), bool(e.in_fromlist), e.imported_as or ""]


class Observer:
    def __init__(self, root, vocab):
        self.root = root
        self.vocab = set(vocab)
        self.plog = []
        self.mlog = []

    def norm(self, p):
        if p is None:
            return ""
        p = os.fspath(p)
        if p == self.root or p.startswith(self.root + "/"):
            return "$R" + p[len(self.root):]
        return p

    def name(self, n):
        return split(self.norm(n))

    def node(self, n):
        mg = modulegraph2
        out = {"n": self.name(n.identifier), "cls": type(n).__name__, "file": "", "search": [], "data": False,
               "ns": "", "dist": "", "init": "", "gw": [], "gr": [], "to": [], "odd": []}
        if isinstance(n, mg.PyPIDistribution):
            return out
        out["file"] = self.norm(n.filename)
        if n.name != n.identifier:
            out["odd"].append("name")
        if n.distribution is not None:
            out["dist"] = self.norm(n.distribution.identifier)
        if isinstance(n, (mg.Package, mg.NamespacePackage)):
            out["search"] = [self.norm(p) for p in n.search_path]
            out["data"] = bool(n.has_data_files)
        if isinstance(n, mg.Package):
            out["init"] = type(n.init_module).__name__
            out["ns"] = n.namespace_type or ""
        if isinstance(n, mg.AliasNode):
            out["to"] = self.name(n.actual_module)
        if isinstance(n, mg.VirtualNode):
            out["to"] = self.name(n.providing_module)
        if hasattr(n, "globals_written"):
            out["gw"] = sorted(x for x in n.globals_written if x in self.vocab)
            out["gr"] = sorted(x for x in n.globals_read if x in self.vocab)
            if isinstance(n, mg.Module):
                for nm, val in (("__import__", n.uses_dunder_import), ("__file__", n.uses_dunder_file)):
                    if val != (nm in n.globals_read):
                        out["odd"].append("uses" + nm)
        return out

    def snapshot(self, g, n):
        return [[self.name(t.identifier), attr(e)] for es, t in g.outgoing(n) for e in es]

    def graph(self, g):
        edges = [[self.name(s.identifier), self.name(d.identifier), attr(e)] for s, d, es in g.edges() for e in es]
        odd = []
        ids = [n.identifier for n in g.nodes()]
        if len(set(ids)) != len(ids):
            odd.append("dup")
        for i in ids:
            f = g.find_node(i)
            if f is None or f.identifier != i:
                odd.append("find")
        return {
            "nodes": [self.node(n) for n in g.nodes()],
            "edges": edges,
            "roots": [self.name(n.identifier) for n in g.roots()],
            "reach": [self.name(n.identifier) for n in g.iter_graph()],
            "rdists": [self.norm(d.identifier) for d in g.distributions()],
            "adists": [self.norm(d.identifier) for d in g.distributions(reachable=False)],
            "plog": self.plog,
            "mlog": self.mlog,
            "odd": odd,
        }


EXC_GROUPS = [("SyntaxError", SyntaxError), ("OSError", OSError), ("ValueError", ValueError), ("TypeError", TypeError)]


def exc_name(exc):
    for n, t in EXC_GROUPS:
        if isinstance(exc, t):
            return n
    return type(exc).__name__


def describe(e):
    """Text for an exception, without reading any source file."""
    try:
        text = str(e)
    except Exception:
        text = "?"
    frames = []
    tb = e.__traceback__
    while tb is not None:
        frames.append(f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}")
        tb = tb.tb_next
    return f"{type(e).__name__}: {text[:200]} [{' '.join(frames[-4:])}]"


def post_hook(obs, idx, rules):
    def hook(graph, node):
        obs.plog.append({"h": idx, "n": obs.name(node.identifier), "es": obs.snapshot(graph, node)})
        for q in rules:
            if ".".join(q["n"]) == obs.norm(node.identifier):
                arg = ".".join(q["arg"])
                if q["act"] == "import_module":
                    graph.import_module(node, arg)
                elif q["act"] == "import_package":
                    graph.import_package(node, arg)
                elif q["act"] == "add_module":
                    graph.add_module(arg)
    return hook


def missing_hook(obs, idx, rules):
    def hook(graph, importing, name):
        obs.mlog.append({"h": idx, "imp": obs.name(importing.identifier) if importing is not None else [],
                         "n": obs.name(name)})
        for q in rules:
            if ".".join(q["n"]) == name:
                to = ".".join(q["to"])
                if q["ret"] == "virtual":
                    n = modulegraph2.VirtualNode(name, to)
                    graph.add_node(n)
                    return n
                if q["ret"] == "alias":
                    n = modulegraph2.AliasNode(name, to)
                    graph.add_node(n)
                    graph.import_module(n, to)
                    return n
                if q["ret"] == "module":
                    return graph.add_module(to)
        return None
    return hook


def perform(g, op, obs, root, marks=None):
    """Run one operation; returns (returned name, extra)."""
    def real(s):
        return s.replace("$R", root, 1)

    k = op["op"]
    if k == "exclude":
        if op.get("form") == "str":
            g.add_excludes(".".join(op["names"][0]))
        elif op.get("form") == "iter":
            g.add_excludes(iter([".".join(n) for n in op["names"]]))
        else:
            g.add_excludes([".".join(n) for n in op["names"]])
    elif k == "imply":
        d = {}
        for it in op["items"]:
            key = ".".join(it["n"])
            if it["k"] == "exclude":
                d[key] = None
            elif it["k"] == "alias":
                d[key] = modulegraph2.Alias(".".join(it["to"]))
            elif it["k"] == "virtual":
                d[key] = modulegraph2.Virtual(".".join(it["to"]))
            else:
                d[key] = tuple(".".join(x) for x in it["refs"])
        g.add_implies(d)
    elif k == "posthook":
        g.add_post_processing_hook(post_hook(obs, op["h"], op["rules"]))
    elif k == "misshook":
        g.add_missing_hook(missing_hook(obs, op["h"], op["rules"]))
    elif k == "module":
        return g.add_module(".".join(op["n"]))
    elif k == "script":
        p = real(op["path"])
        if op.get("pathlib"):
            import pathlib
            p = pathlib.Path(p)
        return g.add_script(p)
    elif k == "source":
        text = op["text"]
        if marks:
            text = f"open({marks!r}, 'a').write('source\\n')\n" + text
        g.add_dependencies_for_source(text)
    elif k == "dist":
        if op.get("form") == "obj":
            d = modulegraph2.distribution_named(op["name"])
            if d is None:
                raise ValueError("unknown")
            return g.add_distribution(d)
        return g.add_distribution(op["name"])
    elif k == "ctx":
        try:
            with g.hook_context():
                for c in op["calls"]:
                    src = g.find_node(real(c["from"][0]) if len(c["from"]) == 1 else ".".join(c["from"]))
                    if src is None:
                        continue
                    if c["c"] == "import_module":
                        g.import_module(src, ".".join(c["n"]))
                    else:
                        g.import_package(src, ".".join(c["n"]))
                if op.get("raise"):
                    raise KeyError("from the context")
        except KeyError:
            if not op.get("raise"):
                raise
    elif k == "nop":
        pass
    else:
        raise AssertionError(k)
    return None


def run_ops(scn, root, world_path, marks=None):
    opts = scn.get("options", {})
    vocab = scn["vocab"]
    obs = Observer(root, vocab)
    g = modulegraph2.ModuleGraph(use_stdlib_implies=False, use_builtin_hooks=opts.get("builtin", True))
    result = []
    for op in scn["ops"]:
        exc, ret, msg = "", None, ""
        try:
            ret = perform(g, op, obs, root, marks)
        except BaseException as e:  # noqa: B036
            exc = exc_name(e)
            msg = describe(e)
        rec = {"exc": exc, "msg": msg, "ret": obs.name(ret.identifier) if ret is not None else []}
        if ret is not None and g.find_node(ret.identifier) is not ret:
            rec["ret"] = ["<other object>"]
        try:
            rec.update(obs.graph(g))
        except BaseException as e:  # noqa: B036
            rec["exc"] = "observe:" + exc_name(e)
            rec["msg"] = describe(e)
            for key in ("nodes", "edges", "roots", "reach", "rdists", "adists", "plog", "mlog", "odd"):
                rec.setdefault(key, [])
        rec["plog"] = list(obs.plog)
        rec["mlog"] = list(obs.mlog)
        result.append(rec)
    if "after" in scn:
        # something other than the observations is of interest
        scn["after"](g)
        return scn["result"][0]
    return result


def setup_child(scn, root, world):
    os.chdir(root)
    sys.path[:] = [p.replace("$R", root, 1) for p in world.path] + STDLIB_PATH
    sys.path_importer_cache.clear()
    importlib_invalidate()
    for a in world.sysalias:
        name, to = ".".join(a["n"]), ".".join(a["to"])
        import importlib
        sys.modules[name] = importlib.import_module(to)


def importlib_invalidate():
    import importlib
    importlib.invalidate_caches()


def in_child(func, timeout=40):
    """Run func() in a forked child, returns its JSON-serialisable result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.alarm(timeout)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(devnull), "wb"))
            try:
                res = {"ok": func()}
            except BaseException as e:  # noqa: B036
                res = {"fail": describe(e)}
            data = json.dumps(res).encode()
            with os.fdopen(wfd, "wb") as fp:
                fp.write(data)
        except BaseException:  # noqa: B036
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    with os.fdopen(rfd, "rb") as fp:
        while True:
            b = fp.read(65536)
            if not b:
                break
            chunks.append(b)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        return {"fail": f"child died with status {status}"}
    return json.loads(data)


def tree_of(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in ds + fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            data = None
            if f in fs:
                with open(p, "rb") as fp:
                    data = fp.read()
            out[p] = (st.st_mode, data, st.st_mtime_ns if f in fs else 0)
    return out


def before_build(scn):
    """Modules that are already there when the graph is built."""
    import importlib
    import types
    for name in scn.get("preload", ()):
        try:
            importlib.import_module(name)
        except BaseException:  # noqa: B036
            pass
    for name, form in scn.get("oddmods", ()):
        if name in sys.modules:
            continue
        m = types.ModuleType(name)
        if form:
            del m.__spec__
        sys.modules[name] = m


def world_names(scn):
    return {n for n in scn["vocab"]}


def build_watched(scn, root, marks):
    """Build, and record what happened to everything else."""
    before_build(scn)
    if os.path.exists(marks):
        os.unlink(marks)
    path_obj, path = sys.path, list(sys.path)
    mods = dict(sys.modules)
    files = tree_of(root)
    cwd, argv, flag = os.getcwd(), list(sys.argv), sys.dont_write_bytecode
    res = run_ops(scn, root, scn["world"].path, marks)
    odd = []
    if sys.path is not path_obj or sys.path != path:
        odd.append("sys.path")
    for n, m in mods.items():
        if sys.modules.get(n) is not m:
            odd.append("sys.modules " + n)
    after = tree_of(root)
    for p in sorted(set(files) | set(after)):
        if files.get(p) != after.get(p):
            odd.append("file " + p.replace(root, "$R"))
    if os.getcwd() != cwd:
        odd.append("working directory")
    if sys.argv != argv or sys.dont_write_bytecode != flag:
        odd.append("sys attributes")
    try:
        with open(marks) as fp:
            executed = sorted(set(fp.read().split("\n")) - {""})
    except FileNotFoundError:
        executed = []
    vocab = world_names(scn)
    new = sorted(n for n in sys.modules if n not in mods and n.split(".")[0] in vocab)
    return {"obs": res, "effects": {"executed": executed, "new": [split(n) for n in new], "odd": odd}}


def run_scenario(scn, keep=None):
    """Returns the list of observations, or {"fail": text}."""
    world = scn["world"]
    top = os.path.realpath(tempfile.mkdtemp(prefix="mgv", dir=scn.get("tmp")))
    root = os.path.join(top, "r")
    os.mkdir(root)
    marks = os.path.join(top, "marks") if scn.get("marks") else None
    try:
        world.materialise(root, marks=marks)

        def func():
            setup_child(scn, root, world)
            if marks:
                return build_watched(scn, root, marks)
            return run_ops(scn, root, world.path)

        res = in_child(func, scn.get("timeout", 40))
        if marks and "ok" in res:
            res["effects"] = res["ok"]["effects"]
            res["ok"] = res["ok"]["obs"]
        return res
    finally:
        if keep is None:
            shutil.rmtree(top, ignore_errors=True)
