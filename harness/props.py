"""Which scenarios are explored for a property, and which disagreements between
the specification and the code are about that property.

A pool is (builder, profile, quick count).  Thorough runs use more of them.
"""
import gen

FOUND = {"SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "FrozenPackage",
         "Package", "NamespacePackage", "InvalidModule"}
CODE = {"import", "rel", "invalid", "fromname", "reexport"}


class Facts:
    """What the specification and the code say at the first disagreement."""

    def __init__(self, trace, rec):
        self.t = trace
        self.rec = rec
        self.fails = rec["fails"]
        self.op = trace["ops"][rec["op"] - 1]
        self.done = trace["ops"][: rec["op"]]
        self.obs = trace["obs"][rec["op"] - 1]
        self.pairs = {(tuple(e[0]), tuple(e[1])) for e in self.obs["edges"]}
        self.cls = {tuple(n["n"]): n["cls"] for n in self.obs["nodes"]}
        self.bodies = trace["world"]["bodies"]

    def attr_only(self, c):
        """Both sides have an edge between these nodes."""
        p = (tuple(c["a"]), tuple(c["b"]))
        if c["cl"] == "edge-missing":
            return p in self.pairs
        return bool(c["obs"])

    def why(self, c):
        return set(c["obs"])

    def names(self, c):
        out = []
        for k in ("a", "b"):
            if isinstance(c[k], list) and c[k]:
                out.append(tuple(c[k]))
        return out

    def configured(self, kind):
        out = set()
        for o in self.done:
            if o["op"] == "exclude" and kind == "exclude":
                out.update(tuple(n) for n in o["names"])
            elif o["op"] == "imply":
                for it in o["items"]:
                    if (it["k"] == "exclude") == (kind == "exclude"):
                        out.add(tuple(it["n"]))
        return out


def select(func):
    """A relevance test from a test of single clauses."""
    return lambda f: [c for c in f.fails if c["cl"] == "exc" or func(f, c)]


def anything(f):
    return list(f.fails)


EDGE = ("edge-missing", "edge-extra")
NODE = ("node-missing", "node-extra", "node-cls")
STRUCT = EDGE + NODE + ("root-missing", "root-extra", "odd", "reach")


def below(n, tops):
    return any(n[: i + 1] in tops for i in range(len(n)))


def c01(f, c):
    if c["cl"] == "edge-missing":
        return not f.attr_only(c) and f.why(c) & CODE
    return c["cl"] in ("node-missing",)


def c02(f, c):
    if c["cl"] == "edge-extra":
        return not f.attr_only(c)
    return c["cl"] in ("node-extra", "root-extra", "reach")


def c03(f, c):
    if c["cl"] in ("node-missing", "node-extra"):
        return True
    return c["cl"] in ("node-cls", "node-file", "node-search", "node-init", "node-odd")


def c04(f, c):
    if c["cl"] == "edge-missing":
        return bool(f.why(c) & {"parent", "subname"})
    if c["cl"] == "edge-extra":
        # something other than an unconditional link to the package
        return bool(f.why(c)) and c["a"][:-1] == c["b"] and not (f.why(c) & CODE)
    if c["cl"] == "node-cls":
        return True
    if c["cl"] == "node-missing":
        return True
    return c["cl"] == "node-extra" and len(c["a"]) > 1


def has_rel(ss):
    for s in ss:
        if s["k"] == "from" and s["lvl"]:
            return True
        if s["k"] == "blk" and any(has_rel(p["ss"]) for p in s["ps"]):
            return True
    return False


def c05(f, c):
    if c["cl"] in EDGE:
        return bool(f.why(c) & {"rel", "invalid"}) or not f.attr_only(c)
    return c["cl"] in NODE or c["cl"] in ("root-missing", "root-extra")


def c06(f, c):
    return c["cl"] in EDGE and f.attr_only(c)


def c07(f, c):
    if c["cl"] == "edge-missing":
        return bool(f.why(c) & {"fromname", "reexport", "subname"})
    if c["cl"] == "edge-extra":
        return c["exp"][2] or not f.attr_only(c)
    return c["cl"] in ("node-extra", "node-missing", "node-gw", "node-cls")


def c08(f, c):
    if c["cl"] in ("node-missing", "node-extra", "node-cls") and "ExcludedModule" in (c["b"], c["exp"], c["obs"]):
        return True
    ex = f.configured("exclude") | {("__main__",)}
    return c["cl"] in STRUCT and any(below(n, ex) for n in f.names(c))


def c08all(f):
    got = select(c08)(f)
    if not got and f.configured("exclude"):
        # nodes that are there only because an excluded module was scanned, or
        # missing because of an exclusion of something else
        got = [c for c in f.fails if c["cl"] in ("node-extra", "node-missing", "node-cls")]
    return got


def c09(f, c):
    if c["cl"] == "edge-missing" and f.why(c) & {"implied", "alias"}:
        return True
    if c["cl"] == "node-to":
        return True
    if c["cl"] in NODE and {"AliasNode", "VirtualNode"} & {c["b"], str(c["exp"]), str(c["obs"])}:
        return True
    im = f.configured("imply")
    return c["cl"] in STRUCT and any(n in im for n in f.names(c))


def c09all(f):
    got = select(c09)(f)
    if not got and f.configured("imply"):
        got = [c for c in f.fails if c["cl"] in ("node-extra", "node-missing", "node-cls") or c["cl"] in EDGE and not f.attr_only(c)]
    return got


def c10(f, c):
    if c["cl"].startswith("posthook"):
        return True
    hooks = any(q["act"] for o in f.done if o["op"] == "posthook" for q in o["rules"])
    return hooks and (c["cl"] in NODE or c["cl"] in EDGE and not f.attr_only(c))


def c11(f, c):
    if c["cl"].startswith("misshook"):
        return True
    rules = {tuple(q["n"]) for o in f.done if o["op"] == "misshook" for q in o["rules"]}
    if c["cl"] in NODE and "MissingModule" in (c["b"], c["exp"], c["obs"]):
        return True
    return c["cl"] in STRUCT and any(n in rules for n in f.names(c)) or bool(rules) and c["cl"] in NODE


def c12(f, c):
    if c["cl"] in ("root-missing", "root-extra", "ret", "odd", "reach"):
        return True
    k = f.rec["op"] - 1
    if k == 0:
        return False
    # something that was there before the call is gone or different
    prev = f.t["obs"][k - 1]
    pe = {(tuple(e[0]), tuple(e[1]), tuple(e[2])) for e in prev["edges"]}
    pn = {tuple(n["n"]) for n in prev["nodes"]}
    if c["cl"] == "edge-missing":
        return (tuple(c["a"]), tuple(c["b"]), tuple(c["exp"])) in pe
    if c["cl"].startswith("node-") and tuple(c["a"]) in pn:
        return True
    repeated = any(o == f.op for o in f.done[:-1])
    return repeated and c["cl"] in STRUCT


def c15(f, c):
    code = f.cls
    if c["cl"] in EDGE:
        return code.get(tuple(c["a"])) == "BytecodeModule" or is_pyc(f, c["a"])
    return c["cl"] in NODE


def is_pyc(f, n):
    for x in f.obs["nodes"]:
        if x["n"] == n:
            return "BytecodeModule" in (x["cls"], x["init"])
    return False


def c16(f, c):
    return c["cl"] in ("node-gw", "node-gr", "node-odd")


def broken(f):
    w = f.t["world"]
    bad = {i + 1 for i, b in enumerate(w["bodies"]) if b["bad"] or b["exec"] != "ok"}
    return {e["file"] for es in w["locs"].values() for e in es if e["body"] in bad}


def c17(f, c):
    if c["cl"] in NODE or c["cl"] == "node-init":
        return True
    if c["cl"] in EDGE and not f.attr_only(c):
        return True
    return False


def refused(o, t):
    if o["op"] == "exclude":
        return o["form"] == "str"
    if o["op"] == "module":
        return "" in o["n"]
    if o["op"] == "dist":
        return o["name"] not in [d["name"] for d in t["world"]["dists"]]
    if o["op"] == "source":
        return bool(t["world"]["bodies"][o["body"] - 1]["bad"])
    if o["op"] == "script":
        s = [s for s in t["world"]["scripts"] if s["path"] == o["path"]]
        return not s or bool(t["world"]["bodies"][s[0]["body"] - 1]["bad"])
    return False


def c18(f):
    seen = []
    for o in f.done:
        if refused(o, f.t) or o["op"] == "script" and o["path"] in seen:
            # from the first refused call on
            return list(f.fails)
        if o["op"] == "script":
            seen.append(o["path"])
    return []


def c20(f, c):
    return c["cl"] in ("node-dist", "rdists", "adists")


def c21(f, c):
    if not any(o["op"] == "dist" for o in f.done):
        return False
    if c["cl"] == "edge-missing" and "dist" in f.why(c):
        return True
    if c["cl"] == "edge-extra" and f.cls.get(tuple(c["a"])) == "PyPIDistribution":
        return True
    if f.op["op"] == "dist":
        return c["cl"] in STRUCT + ("ret",)
    return c["cl"] in ("root-missing", "root-extra", "ret")


def uses(f, act):
    for o in f.done:
        if o["op"] == "ctx" and any(x["c"] == act for x in o["calls"]):
            return True
        if o["op"] == "posthook" and any(q["act"] == act for q in o["rules"]):
            return True
    return False


def c22(f, c):
    return uses(f, "import_package") and c["cl"] in STRUCT


def c23(f, c):
    return (uses(f, "import_module") or f.op["op"] == "ctx") and c["cl"] in STRUCT + ("ret",)


def c27(f, c):
    return c["cl"] == "node-data"


def c28(f, c):
    return c["cl"] in ("executed", "imported", "disturbed")


def c29(f, c):
    return c["cl"] in NODE + ("node-file",) or c["cl"] in EDGE and not f.attr_only(c)


def c30(f, c):
    return c["cl"] in NODE + EDGE + ("root-missing", "root-extra")


def c31(f, c):
    return f.op["op"] == "source" and c["cl"] in STRUCT


def c33(f, c):
    ns = {"NamespacePackage"} & {c["b"], str(c["exp"]), str(c["obs"])}
    if c["cl"] in NODE:
        return True
    if c["cl"] in ("node-search", "node-ns", "node-file"):
        return True
    return c["cl"] in EDGE and (not f.attr_only(c) or bool(ns) or "nspkg" in f.why(c))


def c34(f, c):
    keys = {tuple(a["n"]) for a in f.t["world"]["sysalias"]} | {tuple(a["to"]) for a in f.t["world"]["sysalias"]}
    return (c["cl"] in STRUCT + ("node-to", "node-file")) and (any(n in keys for n in f.names(c)) or c["cl"] in NODE)


RELEVANT = {
    "C01": select(c01), "C02": select(c02), "C03": select(c03), "C04": select(c04), "C05": select(c05),
    "C06": select(c06), "C07": select(c07), "C08": c08all, "C09": c09all, "C10": select(c10), "C11": select(c11),
    "C12": select(c12), "C15": select(c15), "C16": select(c16), "C17": select(c17), "C18": c18,
    "C20": select(c20), "C21": select(c21), "C22": select(c22), "C23": select(c23), "C27": select(c27), "C28": select(c28),
    "C29": select(c29), "C30": select(c30), "C31": select(c31), "C33": select(c33), "C34": select(c34),
}

NOHOOKS = dict(p_post=0.0, p_miss=0.0)
CALM = dict(p_imply=0.0, p_exclude=0.0, p_late_config=0.0, p_invalid=0.0, **NOHOOKS)
OPS = dict(module=6, script=2, source=0.7, ctx=0.8, dist=0.0)


def W(**kw):
    d = dict(module=0, script=0, source=0, ctx=0, dist=0)
    d.update(kw)
    return d


G = gen.make
GENERAL = (G, {}, 250)

POOLS = {
    "C01": [GENERAL,
            (G, dict(CALM, n_stmt=(1, 4), p_block=0.5, max_block=4, p_global=0.15, n_names=(1, 5)), 300),
            (G, dict(NOHOOKS, n_ops=(3, 7), p_missing=0.05, n_stmt=(2, 5)), 250)],
    "C02": [GENERAL,
            (G, dict(CALM, p_decoy=0.5, p_exotic=0.8, n_stmt=(1, 5), n_ops=(1, 2)), 350),
            (G, dict(NOHOOKS, p_imply=0.7, p_exclude=0.5, n_ops=(1, 3)), 250)],
    "C03": [(G, dict(CALM, p_decoy=0.7, n_entries=(2, 4), p_zip=0.3, p_ns=0.2, p_pyc=0.25, p_so=0.2, p_bad=0.12, n_ops=(2, 6)), 500),
            (G, dict(CALM, p_zip=1.0, p_pyc=0.3, p_decoy=0.3, n_ops=(2, 6)), 200),
            (G, dict(p_special=0.35, n_ops=(2, 5)), 150)],
    "C04": [(G, dict(p_pkg=0.8, depth=5, n_top=(1, 3), n_child=(1, 2), p_missing=0.3, p_exclude=0.5, n_ops=(1, 5)), 500),
            (G, dict(p_pkg=0.7, depth=4, p_imply=0.8, p_late_config=0.3, p_ns=0.2), 350)],
    "C05": [(G, dict(CALM, p_from=0.95, p_rel=0.9, p_pkg=0.7, depth=4, n_top=(1, 3), n_stmt=(1, 4), p_ns=0.15,
                     w_ops=W(module=5, script=3, source=1), p_global=0.1), 600),
            (G, dict(CALM, p_from=0.9, p_rel=0.8, p_pyc=0.6, p_pkg=0.7, depth=4, n_top=(1, 3)), 250)],
    "C06": [(G, dict(CALM, n_top=(3, 6), p_pkg=0.25, n_stmt=(1, 4), p_block=0.6, max_block=4, p_global=0.05, p_as=0.4,
                     p_pyc=0.05, p_dup_as=0.2, w_ops=W(module=4, script=3)), 500),
            (G, dict(CALM, n_top=(2, 3), p_pkg=0.4, depth=2, n_stmt=(3, 8), p_block=0.3, p_global=0.05, p_as=0.5, p_dup_as=0.3), 300)],
    "C07": [(G, dict(CALM, p_from=0.85, p_pkg=0.7, depth=3, n_top=(1, 3), n_stmt=(2, 6), p_block=0.15, p_global=0.35, p_star=0.2, n_names=(1, 4)), 600),
            (G, dict(NOHOOKS, p_imply=0.6, p_from=0.85, p_pkg=0.6, p_star=0.2, p_global=0.3), 250)],
    "C08": [(G, dict(p_exclude=1.0, n_exclude=(1, 3), p_imply=0.4, p_late_config=0.2, p_missing=0.05, n_ops=(2, 5)), 700),
            (G, dict(NOHOOKS, p_exclude=1.0, n_exclude=(1, 2), p_from=0.8, p_pkg=0.7, n_stmt=(2, 5)), 250),
            (G, dict(NOHOOKS, p_sysalias=1.0, p_special=0.5, p_exclude=1.0, n_exclude=(1, 4), p_imply=0.4, n_ops=(2, 5)), 120)],
    "C09": [(G, dict(p_imply=1.0, n_imply=(2, 5), p_exclude=0.2, p_late_config=0.3, n_ops=(2, 5)), 700),
            (G, dict(NOHOOKS, p_imply=1.0, n_imply=(2, 5), p_pkg=0.7, depth=4, p_missing=0.2, p_invalid=0), 300)],
    "C10": [(G, dict(p_post=1.0, p_hookact=0.6, n_ops=(2, 5), w_ops=W(module=5, script=2, source=1, ctx=2)), 600),
            (G, dict(p_post=1.0, p_hookact=0.2, n_ops=(1, 4), p_swig=0.1), 150),
            (G, dict(p_post=1.0, p_hookact=0.3, p_mypyc=0.4, p_dist=1.0), 150)],
    "C11": [(G, dict(p_miss=1.0, p_missing=0.35, n_ops=(2, 5), w_ops=W(module=5, script=2, source=1, ctx=1)), 800),
            (G, dict(p_miss=1.0, p_missing=0.3, p_imply=0.5, p_exclude=0.4, p_from=0.8, p_late_config=0.2), 300)],
    "C12": [(G, dict(n_ops=(4, 9), p_repeat=0.35, p_late_config=0.15, w_ops=W(module=6, script=2, source=1, ctx=0.5, dist=1), p_dist=0.4), 500),
            (G, dict(n_ops=(3, 6), p_repeat=0.3, n_top=(1, 3), n_stmt=(1, 3)), 300)],
    "C15": [(G, dict(CALM, p_pyc=0.9, n_stmt=(2, 6), p_block=0.5, p_bad=0.0), 500),
            (G, dict(CALM, p_pyc=0.9, n_stmt=(1, 4), p_block=0.55, max_block=4, p_bad=0.0, pyc_free=True, acyclic=True, p_pkg=0.0, p_ns=0.0, p_star=0.0,
                     n_top=(4, 7), p_missing=0.5), 400)],
    "C16": [(G, dict(CALM, n_stmt=(3, 8), p_global=0.75, p_block=0.5, max_block=4, p_pyc=0.3, p_special=0.0, p_missing=0.3, p_star=0.05), 700)],
    "C17": [(G, dict(p_bad=0.35, p_exec=0.2, p_pyc=0.2, n_ops=(2, 5)), 400),
            (G, dict(p_bad=0.15, p_exec=0.5, p_pkg=0.7, depth=4, p_imply=0.5, p_zip=0.15, p_ns=0.2), 400),
            (G, dict(CALM, p_bad=0.4, p_exec=0.3, p_zip=0.8, p_pyc=0.3), 200),
            (G, dict(p_bad=0.25, p_exec=0.4, p_swig=0.3, p_pkg=0.6), 150)],
    "C18": [(G, dict(p_invalid=0.45, n_ops=(3, 7), w_ops=W(module=5, script=2, source=1, ctx=0.7, dist=1), p_dist=0.3, p_imply=0.4, p_exclude=0.4), 700)],
    "C20": [(G, dict(p_dist=1.0, n_entries=(1, 3), p_so=0.15, p_pyc=0.2, p_decoy=0.4, p_ns=0.2), 600)],
    "C21": [(G, dict(p_dist=1.0, n_ops=(2, 6), w_ops=W(module=2, script=1, dist=6), p_repeat=0.2), 700)],
    "C22": [(G, dict(p_zip=0.0, p_post=0.5, p_hookact=0.9, p_pkg=0.75, depth=4, n_child=(1, 4), p_hookpkg=1.0, w_ops=W(module=3, ctx=5), n_ops=(2, 5)), 350)],
    "C23": [(G, dict(p_post=0.5, p_hookact=0.9, n_ops=(2, 6), w_ops=W(module=3, script=1, ctx=5), p_imply=0.4, p_exclude=0.3), 700)],
    "C27": [(G, dict(CALM, p_data=0.6, n_data=4, p_zip=0.4, p_pkg=0.8, depth=4, n_entries=(1, 3), n_stmt=(0, 3), p_so=0.15, n_ops=(3, 7)), 330),
            (G, dict(CALM, p_data=0.4, n_data=3, p_zip=0.0, p_pkg=0.7, p_ns=0.2, p_pkgutil=0.1, p_bad=0.15, p_exec=0.15, n_ops=(3, 7)), 120)],
    "C28": [(G, dict(marks=True, p_pkg=0.7, depth=4, p_decoy=0.0, n_ops=(2, 5), p_sysalias=0.1, w_ops=dict(module=6, script=3, source=2, ctx=1, dist=1)), 230),
            (G, dict(CALM, marks=True, p_pkg=0.6, p_exec=0.3, p_zip=0.2, p_ns=0.2, p_pkgutil=0.1, n_ops=(2, 5)), 170),
            (G, dict(marks=True, p_swig=0.3, p_mypyc=0.2, p_dist=0.8, p_post=0.5, p_miss=0.4, w_ops=dict(module=4, script=2, source=1, ctx=3, dist=2)), 120)],
    "C29": [(G, dict(p_swig=0.6, p_pkg=0.6, n_ops=(2, 5), p_exec=0.15), 700),
            (G, dict(CALM, p_swig=0.9, p_zip=0.3, p_bad=0.1, p_exec=0.3, p_pkg=0.6), 300)],
    "C30": [(G, dict(p_mypyc=0.7, p_dist=1.0, n_ops=(2, 5)), 700),
            (G, dict(CALM, p_mypyc=0.9, p_dist=1.0, p_rel=0.7, p_from=0.8, p_bad=0.2), 300)],
    "C31": [(G, dict(w_ops=W(module=2, source=6), n_ops=(1, 4), n_stmt=(2, 5), p_rel=0.3), 700)],
    "C33": [(G, dict(p_ns=0.4, n_entries=(2, 4), p_decoy=0.5, p_pkgutil=0.25, n_ops=(2, 5)), 600),
            (G, dict(CALM, p_ns=0.5, n_entries=(2, 4), p_pkgutil=0.4, p_zip=0.2, depth=4, p_exec=0.15), 350)],
    "C34": [(G, dict(p_sysalias=1.0, p_special=0.5, n_ops=(2, 5)), 450),
            (G, dict(NOHOOKS, p_sysalias=1.0, p_special=0.5, p_imply=0.8, p_exclude=0.6, n_ops=(2, 5)), 200)],
}
