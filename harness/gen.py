"""Random scenarios: worlds and histories of API calls.

Everything is derived from the given random.Random, so a seed gives the same
scenarios everywhere.  A profile is a dict that overrides DEFAULTS.
"""
import random

from world import SUFFIXES, World, body, frm, g, imp, r, w, blk

TOP = ["xa", "xb", "xc", "xd", "xe", "xf", "xg"]
CHILD = ["ca", "cb", "cc", "xa", "xc", "cd"]
GLOB = ["va", "vb", "vc", "fa", "ca", "cb", "xb"]
GG = ["ga", "gb"]
MISSING = ["zq", "zr"]

DEFAULTS = dict(
    n_top=(2, 5), p_pkg=0.5, p_ns=0.1, depth=3, n_child=(1, 3), n_entries=(1, 2), p_zip=0.1,
    p_decoy=0.2, p_pyc=0.12, p_so=0.08, p_bad=0.06, p_exec=0.08, p_data=0.15, n_data=1, p_pkgutil=0.03,
    n_stmt=(0, 5), p_block=0.35, max_block=3, p_from=0.55, p_rel=0.4, p_star=0.08, p_as=0.25, p_missing=0.12,
    p_global=0.3, n_names=(1, 3), p_special=0.08, p_dup_as=0.05,
    n_exclude=(0, 2), p_exclude=0.25, n_imply=(0, 3), p_imply=0.3, p_late_config=0.1,
    p_post=0.3, p_miss=0.25, p_hookact=0.4, p_sysalias=0.05,
    n_ops=(1, 4), w_ops=dict(module=6, script=2, source=0.7, ctx=0.8, dist=0.0), p_invalid=0.08, p_repeat=0.15,
    p_dist=0.1, p_swig=0.0, p_mypyc=0.0, p_exotic=0.15, p_unused=0.2, marks=False, builtin=0.95,
    p_script_only=0.0, p_preload=0.5, pyc_free=False, targets=None, acyclic=False, p_hookpkg=0.25, as_code=False,
)


class Gen:
    def __init__(self, rng, **profile):
        self.rng = rng
        self.p = dict(DEFAULTS)
        self.p.update(profile)
        self.W = World()
        self.cur = ""
        self.items = {}  # dotted -> kind: mod pkg ns
        self.vocab = set(GLOB + GG + CHILD + TOP + MISSING + ["__import__", "__file__", "swig_import_helper"])

    # -- helpers

    def chance(self, p):
        return self.rng.random() < p

    def num(self, lohi):
        return self.rng.randint(*lohi)

    def pick(self, xs):
        return self.rng.choice(xs)

    # -- tree

    def plan(self):
        def add(prefix, names, depth):
            for n in names:
                d = f"{prefix}.{n}" if prefix else n
                x = self.rng.random()
                if depth < self.p["depth"] and x < self.p["p_pkg"]:
                    self.items[d] = "pkg"
                elif depth < self.p["depth"] and x < self.p["p_pkg"] + self.p["p_ns"]:
                    self.items[d] = "ns"
                else:
                    self.items[d] = "mod"
                    continue
                k = self.num(self.p["n_child"])
                names = CHILD + ([d.partition(".")[0]] if self.chance(0.2) else []) + (["gc"] if self.chance(0.05) else [])
                add(d, self.rng.sample(names, min(k, len(names))), depth + 1)

        add("", self.rng.sample(TOP, self.num(self.p["n_top"])), 1)

    def file_kind(self):
        x = self.rng.random()
        if x < self.p["p_pyc"]:
            return "pyc"
        if x < self.p["p_pyc"] + self.p["p_so"]:
            return "so"
        return "py"

    def store(self):
        p = self.p
        W = self.W
        for i in range(self.num(p["n_entries"])):
            W.entry(f"p{i}", "zip" if self.chance(p["p_zip"]) else "dir")
        self.home = {}
        self.placed = []
        for d, kind in self.items.items():
            parent = d.rpartition(".")[0]
            if parent and self.items[parent] != "ns":
                loc = self.home[parent]
            else:
                loc = self.pick(W.path)
                if parent and (loc + "/" + parent.replace(".", "/")) not in W.locs:
                    pass
            self.home[d] = loc
            self.put(loc, d, kind)
            if self.chance(p["p_decoy"]):
                loc2 = self.pick(W.path)
                self.put(loc2, d, self.pick(["mod", "pkg", "ns", "mod"]))
        # The function pkgutil.extend_path compiles the modules with the same
        # name in zip archives, and raises an exception when that fails.
        extended = {d for d, _, b in self.placed if b["ns"] == "pkgutil"}
        for d, zipped, b in self.placed:
            if zipped and d in extended:
                b["bad"] = ""
        for loc in list(W.locs):
            zipped = any(W.kinds[z] == "zip" and loc.startswith(z) for z in W.path)
            if self.chance(p["p_data"]) and loc not in W.path:
                self.add_data(loc, zipped)

    def add_data(self, loc, zipped):
        for _ in range(self.rng.randint(1, self.p["n_data"])):
            self.add_datum(loc)

    def add_datum(self, loc):
        W = self.W
        rich = self.p["n_data"] > 1
        where = loc
        if rich and self.chance(0.2):
            # next to the package, with a name that starts with its name
            up, _, nm = loc.rpartition("/")
            if self.chance(0.3):
                if not self.has(up, nm + "_data.txt", "data"):
                    W.file(up, nm + "_data.txt", "data")
                return
            where = W.mkdir(up, nm + self.pick(["_data", "-1.0", "x", ".d"]))
        for _ in range(self.pick([0, 0, 1, 1, 2, 3, 6])):
            d = self.pick(["res", "dd", "ee", "src", "sub dir", "xx.py", "yy.so", "__pycache__", ".git", ".svn", ".hg", "v1.2"] if rich else
                          ["res", "dd", "__pycache__"])
            where = W.mkdir(where, d)
        form = self.pick(["none", "none", "mod", "mod", "data"] if rich else ["none", "data", "data"])
        if form == "data":
            n = self.pick(["data.txt", "logo", "x.cpython-37.pyc.1", ".hidden", "py", "z.pyx", "z.py.in", "z.pyo", "Makefile", "z.soo", "zPY", "z.pyi"])
            if not any(e["stem"] == n for e in W.locs[where]):
                W.file(where, n, "data")
        elif form == "mod":
            n = self.pick(["m1", "m2", "not-a-module", "__init__", "m3.x"])
            if n == "__init__" and where == loc or any(e["stem"] == n for e in W.locs[where]):
                return
            k = self.pick(["py", "pyc", "so"])
            W.file(where, n, k, None if k == "so" else body([w("va")]), self.pick(SUFFIXES) if k == "so" else None)

    def has(self, loc, stem, kind):
        return any(e["stem"] == stem and e["kind"] == kind for e in self.W.locs.get(loc, ()))

    def put(self, loc, dotted, kind):
        W = self.W
        zipped = any(W.kinds[z] == "zip" and loc == z for z in W.path)
        parts = dotted.split(".")
        if kind == "ns":
            W.mkdir(loc, *parts)
            if self.chance(0.3) and len(W.path) > 1:
                W.mkdir(self.pick(W.path), *parts)
            return
        fk = self.file_kind()
        if zipped and fk == "so":
            fk = "py"
        d = W.mkdir(loc, *(parts if kind == "pkg" else parts[:-1]))
        stem = "__init__" if kind == "pkg" else parts[-1]
        if zipped and any(self.has(d, stem, k) for k in ("py", "pyc")):
            return
        if zipped and kind == "pkg" and any(self.has(W.mkdir(loc, *parts[:-1]), parts[-1], k) for k in ("py", "pyc")):
            return
        if zipped and kind == "mod" and any(self.has(d + "/" + stem, "__init__", k) for k in ("py", "pyc")):
            return
        if self.has(d, stem, fk):
            return
        if fk == "so":
            W.file(d, stem, "so", None, self.pick(SUFFIXES) if self.chance(0.3) else None)
        else:
            b = self.make_body(dotted, kind == "pkg", fk)
            W.file(d, stem, fk, b)
            self.placed.append((dotted, zipped, b))

    # -- code

    def make_body(self, dotted, is_pkg, fk="py", script=False):
        p = self.p
        self.cur = dotted
        ctx = dict(name=dotted, pkg=is_pkg, script=script, pyc=fk == "pyc" or p["as_code"])
        ss = self.stmts(ctx, self.num(p["n_stmt"]), 0, False, False)
        bad = ""
        if self.chance(p["p_bad"]):
            bad = self.pick(["parse", "sem", "enc"]) if fk == "py" else "badpyc"
        ex = "ok"
        if self.chance(p["p_exec"]):
            ex = self.pick(["raise", "importerror", "notfound", "exit", "assert"])
        ns = ""
        if is_pkg and fk == "py" and self.chance(p["p_pkgutil"]):
            ns = self.pick(["pkgutil", "pkgutil", "pkg_resources"])
            ss = [r("__import__")] + [s for s in ss if s["k"] == "w"]
            ex = "ok"
            bad = ""
        opt = dict(style=self.rng.randrange(1 << 10), badform=self.rng.randrange(12))
        # without a use of __import__ this means nothing
        opt["mention"] = fk == "py" and not ns and opt["style"] % 3 == 0 and not uses_import(ss)
        if self.chance(p["p_exotic"]):
            opt["enc"] = self.pick(["", "latin-1"])
            opt["bom"] = self.chance(0.3) and not opt["enc"]
            opt["crlf"] = self.chance(0.3)
            opt["noeol"] = self.chance(0.3)
            opt["unicode"] = self.chance(0.3)
            opt["noise"] = self.chance(0.5)
            opt["hashpyc"] = self.chance(0.5)
        return body(ss, bad=bad, exec=ex, ns=ns, **opt)

    def known(self):
        if self.p["acyclic"] and self.cur:
            return sorted(x for x in self.items if x > self.cur) or ["zq"]
        return sorted(self.items)

    def target(self):
        """A dotted name for an absolute import."""
        x = self.rng.random()
        p = self.p
        if x < p["p_missing"]:
            z = self.pick(MISSING)
            y = self.rng.random()
            if y < 0.4:
                return z
            if y < 0.85:
                return self.pick(self.known()) + "." + z
            return z + "." + self.pick(CHILD)
        if x < p["p_missing"] + p["p_special"]:
            return self.pick(["gc", "marshal", "errno", "__hello__", "__phello__", "__phello__.spam", "__main__", "gc.zq"]
                             + [".".join(a[k]) for a in self.W.sysalias for k in ("n", "n", "to")])
        return self.pick(self.known())

    def from_name(self, target):
        x = self.rng.random()
        kids = [k.rpartition(".")[2] for k in self.items if k.rpartition(".")[0] == target]
        if kids and x < 0.5:
            return self.pick(kids)
        if x < 0.85:
            return self.pick(GLOB + CHILD[:3])
        return self.pick(MISSING + ["xa", "gc"])

    def asname(self):
        if self.chance(self.p["p_as"]):
            return self.pick(GLOB + ["xa", "cc"])
        return None

    def import_stmt(self, ctx, in_fn, in_cls):
        p = self.p
        if not self.chance(p["p_from"]):
            return imp(*[(self.target(), self.asname()) for _ in range(1 if self.chance(0.8) else 2)])
        lvl = 0
        full = ctx["name"]
        if self.chance(p["p_rel"]):
            depth = full.count(".") + 1
            lvl = self.pick([1, 1, 1, 2, 2, 3, depth, depth + 1])
            base = full.split(".")
            up = lvl - 1 if ctx["pkg"] else lvl
            base = base[: max(0, len(base) - up)]
            b = ".".join(base)
            cands = [k[len(b) + 1:] for k in self.items if b and k.startswith(b + ".")]
            if self.chance(0.4):
                mod = ""
            elif cands and self.chance(0.75):
                mod = self.pick(sorted(cands))
            else:
                mod = self.pick(MISSING + CHILD)
            target = f"{b}.{mod}" if mod else b
        else:
            mod = target = self.target()
        if not in_fn and not in_cls and self.chance(p["p_star"]):
            return frm(mod, "*", lvl=lvl)
        names = []
        for _ in range(self.num(p["n_names"])):
            n = self.from_name(target)
            names.append((n, self.asname()))
            if self.chance(p["p_dup_as"]):
                names.append((n, self.asname()))
        return frm(mod, *names, lvl=lvl)

    def stmts(self, ctx, n, depth, in_fn, in_cls):
        out = []
        for _ in range(n):
            x = self.rng.random()
            if depth < self.p["max_block"] and x < self.p["p_block"]:
                out.append(self.block(ctx, depth, in_fn, in_cls))
            elif x < self.p["p_block"] + (1 - self.p["p_block"]) * self.p["p_global"]:
                y = self.rng.random()
                if (in_fn or in_cls) and y < 0.4:
                    out.append(g(self.pick(GG)))
                elif y > 0.9:
                    out.append(blk("def", body=[r(self.pick(GLOB + GG + ["__import__", "__file__", "xa"]))]))
                elif y < 0.7:
                    out.append(w(self.pick(GLOB + ([] if in_fn or in_cls else GG))))
                else:
                    out.append(r(self.pick(GLOB + GG + ["__import__", "__file__", "xa"])))
            else:
                s = self.import_stmt(ctx, in_fn, in_cls)
                out.append(s)
        return out

    def simple(self):
        return [self.pick([w, r])(self.pick(GLOB)) for _ in range(self.rng.randint(1, 2))]

    def block(self, ctx, depth, in_fn, in_cls):
        t = self.pick(["if", "if", "def", "def", "adef", "class", "class", "try", "try", "try", "trystar", "with", "for", "while", "match"])

        def sub(f=in_fn, c=in_cls):
            return self.stmts(ctx, self.rng.randint(1, 2), depth + 1, f, c)

        bind = self.pick(GLOB)
        if t == "if":
            d = dict(body=sub())
            if self.chance(0.4):
                d["orelse"] = sub()
            return blk("if", **d)
        if t in ("def", "adef"):
            return blk(t, self.pick(["fa", "fb", "va"]), body=sub(True, False))
        if t == "class":
            return blk(t, self.pick(["Ca", "vb"]), body=sub(in_fn, True))
        if t in ("try", "trystar"):
            d = dict(body=sub())
            nh = self.rng.randint(0 if t == "try" else 1, 2)
            # The compiler moves exception handlers and copies finally blocks,
            # which changes the order of imports in bytecode.
            moved = self.simple if ctx["pyc"] and not self.p["pyc_free"] else sub
            for i in range(nh):
                d[f"handler{i}"] = moved()
            if nh and self.chance(0.4):
                d["orelse"] = sub()
            if nh == 0 or self.chance(0.4):
                d["final"] = moved()
            return blk(t, bind if nh and self.chance(0.3) else "", **d)
        if t == "with":
            return blk(t, bind if self.chance(0.5) else "", body=sub())
        if t in ("for", "while"):
            d = dict(body=sub())
            if self.chance(0.4):
                d["orelse"] = sub()
            return blk(t, bind if t == "for" else "", **d)
        return blk("match", **{f"case{i}": sub() for i in range(self.rng.randint(1, 2))})

    # -- distributions

    def make_dists(self):
        W = self.W
        for loc in W.path:
            if W.kinds[loc] == "zip" or not self.chance(self.p["p_dist"]):
                continue
            for k in range(self.rng.randint(1, 2)):
                files, mods = [], []
                for sub, es in W.locs.items():
                    if sub != loc and not sub.startswith(loc + "/"):
                        continue
                    for e in es:
                        if e["kind"] == "dir" or not self.chance(0.7):
                            continue
                        files.append(e["file"])
                        if e["kind"] in ("py", "pyc", "so"):
                            rel = (sub[len(loc) + 1:] + "/" + e["stem"]).lstrip("/")
                            if rel == "__init__":
                                files.pop()
                                continue
                            mods.append((rel[: -len("/__init__")] if rel.endswith("/__init__") else rel).replace("/", "."))
                if self.chance(0.3):
                    files.append("$R/bin/tool")
                W.add_dist(loc, self.pick(["dist-a", "dist.b", "distc"]) if k == 0 else f"other{len(W.dists)}",
                           self.pick(["1.0", "2.1"]), files, set(mods), f"d{k}{self.rng.randrange(10)}-1.dist-info")

    # -- histories

    def name(self, dotted):
        return dotted.split(".")

    def imply_item(self):
        k = self.pick(["refs", "refs", "alias", "virtual", "exclude"])
        key = self.target() if self.chance(0.75) else self.pick(self.known()) + "." + self.pick(CHILD)
        it = {"n": self.name(key), "k": k, "to": [], "refs": []}
        if k in ("alias", "virtual"):
            it["to"] = self.name(self.target())
        elif k == "refs":
            it["refs"] = [self.name(self.target()) for _ in range(self.rng.randint(0, 3))]
        return it

    def config_op(self):
        if self.chance(0.5):
            return {"op": "exclude", "form": self.pick(["list", "iter"]),
                    "names": [self.name(self.target()) for _ in range(self.rng.randint(1, 2))]}
        return {"op": "imply", "items": self.unique([self.imply_item() for _ in range(self.rng.randint(1, 3))])}

    @staticmethod
    def unique(items):
        d = {}
        for it in items:
            d[tuple(it["n"])] = it
        return list(d.values())

    def post_op(self, h):
        rules = []
        if self.chance(self.p["p_hookact"]):
            for _ in range(self.rng.randint(1, 2)):
                act = "import_package" if self.chance(self.p["p_hookpkg"]) else self.pick(["import_module", "import_module", "add_module"])
                arg = self.target()
                if act == "import_package" and not self.ok_package(arg):
                    act = "import_module"
                rules.append({"n": self.name(self.target()), "act": act, "arg": self.name(arg)})
        return {"op": "posthook", "h": h, "rules": rules}

    def ok_package(self, dotted):
        """import_package does not support zip archives."""
        return not any(k == "zip" for k in self.W.kinds.values())

    def miss_op(self, h):
        rules = []
        if self.chance(0.6):
            for _ in range(self.rng.randint(1, 2)):
                z = self.pick(MISSING)
                key = self.pick([z, z, self.pick(self.known()) + "." + z, z + "." + self.pick(CHILD)])
                ret = self.pick(["none", "virtual", "alias", "module"])
                rules.append({"n": self.name(key), "ret": ret, "to": self.name(self.pick(self.known()))})
        return {"op": "misshook", "h": h, "rules": self.unique(rules)}

    def history(self):
        p = self.p
        self.cur = ""
        ops = []
        npost = nmiss = 0
        if self.chance(p["p_exclude"]):
            for _ in range(max(1, self.num(p["n_exclude"]))):
                ops.append({"op": "exclude", "form": "list",
                            "names": [self.name(self.target()) for _ in range(self.rng.randint(1, 2))]})
        if self.chance(p["p_imply"]):
            ops.append({"op": "imply", "items": self.unique([self.imply_item() for _ in range(max(1, self.num(p["n_imply"])))])})
            if self.chance(0.3):
                ops.append(self.config_op())
        if self.chance(p["p_post"]):
            for _ in range(self.rng.randint(1, 2)):
                npost += 1
                ops.append(self.post_op(npost))
        if self.chance(p["p_miss"]):
            for _ in range(self.rng.randint(1, 2)):
                nmiss += 1
                ops.append(self.miss_op(nmiss))
        self.rng.shuffle(ops)
        # hooks are numbered in order of registration
        for kind in ("posthook", "misshook"):
            for i, o in enumerate([o for o in ops if o["op"] == kind]):
                o["h"] = i + 1
        added = []
        kinds, weights = zip(*p["w_ops"].items())
        for _ in range(self.num(p["n_ops"])):
            if self.chance(p["p_invalid"]):
                ops.append(self.invalid_op(added))
                continue
            if self.chance(p["p_late_config"]):
                ops.append(self.config_op())
            if added and self.chance(p["p_repeat"]):
                o = self.pick(added)
                if o["op"] == "module":
                    ops.append(dict(o))
                    continue
            k = self.rng.choices(kinds, weights)[0]
            if k == "module":
                o = {"op": "module", "n": self.name(self.target())}
            elif k == "script":
                b = self.make_body("script", False, script=True)
                if b["bad"]:
                    b["bad"] = ""
                nm = f"s{len(self.W.scripts)}"
                o = {"op": "script", "path": self.W.script("bin/" + nm + self.pick([".py", ""]), b), "pathlib": self.chance(0.3)}
            elif k == "source":
                b = self.make_body("source", False)
                b["bad"] = ""
                b["exec"] = "ok"
                b["_render"]["enc"] = b["_render"]["bom"] = ""
                idx = self.W.add_body(b)
                o = {"op": "source", "body": idx}
            elif k == "dist":
                if not self.W.dists:
                    continue
                o = {"op": "dist", "name": self.pick(self.W.dists)["name"], "form": self.pick(["name", "obj"])}
            elif k == "ctx":
                mods = [o["n"] for o in added if o["op"] == "module"] + [[o["path"]] for o in added if o["op"] == "script"]
                if not mods:
                    continue
                calls = []
                for _ in range(self.rng.randint(1, 3)):
                    c = "import_package" if self.chance(self.p["p_hookpkg"]) else "import_module"
                    t = self.target()
                    if not self.ok_package(t):
                        c = "import_module"
                    calls.append({"c": c, "from": self.pick(mods), "n": self.name(t)})
                o = {"op": "ctx", "calls": calls, "raise": self.chance(0.2)}
            ops.append(o)
            added.append(o)
        if not added:
            ops.append({"op": "module", "n": self.name(self.pick(self.known()))})
        return ops

    def invalid_op(self, added):
        form = self.rng.randrange(8)
        if form == 0:
            return {"op": "module", "n": self.pick([["xa", "", "xb"], [""], ["xa", "ca", "", "cb"]])}
        if form == 1:
            return {"op": "script", "path": "$R/bin/missing.py"}
        if form == 2:
            b = self.make_body("script", False, script=True)
            b["bad"] = self.pick(["parse", "sem", "enc"])
            b["_render"]["badform"] %= 4
            return {"op": "script", "path": self.W.script(f"bin/bad{len(self.W.scripts)}.py", b)}
        if form == 3:
            b = self.make_body("source", False)
            b["bad"] = "parse"
            b["_render"]["badform"] %= 4
            b["_render"]["enc"] = b["_render"]["bom"] = ""
            return {"op": "source", "body": self.W.add_body(b)}
        if form == 4:
            return {"op": "dist", "name": "nosuchdist", "form": "name"}
        if form == 5:
            return {"op": "exclude", "form": "str", "names": [self.name(self.target())]}
        if form == 6:
            done = [o for o in added if o["op"] == "script"]
            if done:
                return dict(self.pick(done))
        return {"op": "script", "path": "$R/bin"}

    def scenario(self, sid):
        self.plan()
        if self.chance(self.p["p_sysalias"]):
            self.want_alias = True
        self.store()
        if self.p["p_swig"]:
            self.swigify()
        if self.p["p_mypyc"]:
            self.mypycify()
        self.aliases()
        self.make_dists()
        ops = self.history()
        # The target of an alias has to end up in the graph under its own name.
        targets = {tuple(it["to"]) for o in ops if o["op"] == "imply" for it in o["items"]}
        targets |= {tuple(q["to"]) for o in ops if o["op"] == "misshook" for q in o["rules"] if q["ret"] in ("alias", "virtual")}
        for o in ops:
            if o["op"] == "misshook":
                for q in o["rules"]:
                    if q["ret"] == "module" and tuple(q["n"]) in targets:
                        q["ret"] = "none"
        # pkgutil style namespace packages depend on the real pkgutil
        ex = {"op": "exclude", "form": "list", "names": [["pkgutil"], ["pkg_resources"]]}
        if any(b["ns"] for b in self.W.bodies):
            ops.insert(0, ex)
        scn = finish(sid, self.W, ops, self.vocab, marks=self.p["marks"], builtin=self.chance(self.p["builtin"]), ordered=not self.p["pyc_free"])
        if self.p["marks"] and self.chance(self.p["p_preload"]):
            scn["preload"] = self.rng.sample(sorted(self.items), min(len(self.items), self.rng.randint(0, 3)))
            plain = [d for d, k in self.items.items() if k == "mod" and "." not in d and d not in scn["preload"]]
            scn["oddmods"] = [(d, self.rng.randrange(2)) for d in self.rng.sample(plain + MISSING, self.rng.randint(0, 2))]
            if self.p["p_decoy"]:
                # something else with that name may be a package
                scn["oddmods"] = [x for x in scn["oddmods"] if x[0] in MISSING]
        return scn

    def modules_with_code(self):
        """(location, entry, dotted name) of the source and bytecode modules"""
        out = []
        for loc, es in self.W.locs.items():
            top = [z for z in self.W.path if loc == z or loc.startswith(z + "/")]
            for e in es:
                if e["kind"] in ("py", "pyc") and top:
                    parts = loc[len(top[0]):].split("/")[1:]
                    if e["stem"] != "__init__":
                        parts = parts + [e["stem"]]
                    if parts:
                        out.append((loc, e, ".".join(parts)))
        return out

    def swigify(self):
        """Extensions with an underscore, imported by the module next to them"""
        W = self.W
        for loc, e, dotted in self.modules_with_code():
            b = W.bodies[e["body"] - 1]
            if b["ns"] or not self.chance(self.p["p_swig"]):
                continue
            stem = dotted.rpartition(".")[2]
            ext = self.pick(["_" + stem] * 5 + ["_" + stem + "x", "_xx", "_" + self.pick(CHILD)])
            self.vocab.add(ext)
            use = self.pick([imp(ext), imp(ext), imp((ext, "va")), frm(ext, "va"), imp(ext + ".sub"), frm("", ext, lvl=1), imp(ext, ext + "x")])
            helper = self.pick(["def", "def", "def", "w", "global", "none", "other"])
            ss = b["ss"]
            if helper == "def":
                ss.append(blk("def", "swig_import_helper", body=[use] if self.chance(0.7) else []))
                if self.chance(0.5):
                    ss.append(use)
            elif helper == "w":
                ss.append(use)
                ss.append(w("swig_import_helper"))
            elif helper == "global":
                ss.append(blk("def", "fa", body=[g("swig_import_helper"), use]))
            elif helper == "other":
                ss.append(blk("class", "Ca", body=[w("swig_import_helper"), use]))
            else:
                ss.append(use)
            zipped = any(W.kinds[z] == "zip" and (loc == z or loc.startswith(z + "/")) for z in W.path)
            where = self.pick(["here"] * 6 + ["none", "top", "up"])
            fk = self.pick(["so"] * 5 + ["py", "pyc", "dir", "both"])
            if zipped:
                fk = "py" if fk in ("so", "both") else fk
            for x in (["so", "py"] if fk == "both" else [fk]):
                d = {"here": loc, "top": self.pick(W.path), "up": loc.rpartition("/")[0]}.get(where)
                if d is None or d not in W.locs:
                    continue
                if W.kinds.get(d) == "zip" or any(W.kinds[z] == "zip" and d.startswith(z + "/") for z in W.path):
                    x = "py" if x == "so" else x
                if x == "dir":
                    if not self.has(d, ext, "dir"):
                        W.mkdir(d, ext)
                elif not any(self.has(d, ext, k) for k in ("so", "py", "pyc", "dir")):
                    W.file(d, ext, x, None if x == "so" else self.make_body(ext, False, x))

    def mypycify(self):
        """Extension modules with their source next to them, and a helper module"""
        W = self.W
        for i, loc in enumerate(W.path):
            if W.kinds[loc] == "zip" or not self.chance(0.8):
                continue
            for k in range(self.rng.randint(1, 2)):
                nm = self.pick(["ab", "zc", "hh"]) + str(k) + self.pick(["__mypyc"] * 4 + ["_mypyc", "__mypycx"])
                self.vocab.add(nm)
                if self.chance(0.2):
                    self.put(loc, self.pick(["xa", "xb"]) + "." + nm, "mod")
                elif not any(self.has(loc, nm, x) for x in ("so", "py", "pyc")):
                    self.put(loc, nm, "mod")
        for loc, e, dotted in self.modules_with_code():
            zipped = any(W.kinds[z] == "zip" and (loc == z or loc.startswith(z + "/")) for z in W.path)
            b = W.bodies[e["body"] - 1]
            if not zipped and e["kind"] == "py" and not b["ns"] and self.chance(self.p["p_mypyc"]) and not self.has(loc, e["stem"], "so"):
                if b["_render"]["badform"] % 3 == 0:
                    # the compiler accepts this when it is given bytes
                    b["_render"]["badform"] += 1
                W.file(loc, e["stem"], "so")

    def aliases(self):
        """Names in sys.modules for modules with another name.  The real modules
        are imported first, they have nothing that is executed."""
        if not getattr(self, "want_alias", False):
            return
        W = self.W
        loc = W.path[0]

        def code():
            # only imports in functions
            self.cur = ""
            ss = [w("va")]
            for _ in range(self.rng.randint(0, 2)):
                ss.append(blk("def", "fa", body=[self.pick([imp(self.pick(self.known())), frm(self.pick(self.known()), self.pick(GLOB))])]))
            return body(ss)

        plain = [d for d, k in self.items.items() if k == "mod" and "." not in d]
        for form in self.rng.sample(["top", "nested", "nested", "deep", "pkg"], self.rng.randint(1, 2)):
            if form == "top":
                nm = "xreal"
                W.file(loc, nm, "py", code())
                self.items[nm] = "mod"
            else:
                top = {"nested": "xpk", "deep": "xdp", "pkg": "xpg"}[form]
                if W.locs.get(loc + "/" + top):
                    continue
                nm = {"nested": "xpk.real", "deep": "xdp.sub.real", "pkg": "xpg"}[form]
                self.vocab.update(nm.split("."))
                parts = nm.split(".")
                for k in range(1, len(parts) + (form == "pkg")):
                    d = W.mkdir(loc, *parts[:k])
                    W.file(d, "__init__", "py", code())
                    self.items[".".join(parts[:k])] = "pkg"
                if form == "pkg":
                    W.file(W.mkdir(loc, top), "ca", "py", code())
                    self.items[top + ".ca"] = "mod"
                else:
                    W.file(W.mkdir(loc, *parts[:-1]), parts[-1], "py", code())
                    if self.chance(0.5):
                        self.items[nm] = "mod"
            key = self.pick(["al", "al", "bl"])
            if plain and self.chance(0.3):
                key = self.pick(plain) + "." + key
            elif "." in nm and self.chance(0.25):
                key = nm.rpartition(".")[0] + ".al"
            if any(a["n"] == key.split(".") for a in W.sysalias):
                continue
            self.vocab.update(key.split("."))
            W.sysalias.append({"n": key.split("."), "to": nm.split(".")})


def uses_import(ss):
    """Is __import__ used anywhere?"""
    for s in ss:
        if s["k"] in "rwg" and s["n"] == "__import__":
            return True
        if s["k"] == "blk" and any(uses_import(p["ss"]) for p in s["ps"]):
            return True
    return False


def finish(sid, W, ops, vocab, marks=False, builtin=True, ordered=True):
    from world import render
    for o in ops:
        if o["op"] == "source":
            o["text"] = render(W.bodies[o["body"] - 1], "source").decode("utf-8")
    return {"id": sid, "world": W, "ops": ops, "vocab": sorted(vocab), "marks": marks, "options": {"builtin": builtin}, "ordered": ordered}


def make(sid, seed, **profile):
    return Gen(random.Random(f"{seed}/{sid}"), **profile).scenario(sid)
