"""Worlds: file trees with Python code, as abstract data (for the specification)
and as real files (for the implementation).

Nothing in here decides anything: the abstract form is what the TLA+
specification reads, and `materialise` writes exactly that.
"""
import importlib._bootstrap_external as _be
import importlib.machinery
import importlib.util
import marshal
import os
import zipfile

EXT = importlib.machinery.EXTENSION_SUFFIXES[0]
PHELLO = list(importlib.util.find_spec("__phello__").submodule_search_locations)
SUFFIXES = importlib.machinery.EXTENSION_SUFFIXES
SUFFIX = {"py": ".py", "pyc": ".pyc", "so": EXT}

# --- statements -----------------------------------------------------------


def imp(*mods):
    """import a.b as c, d"""
    ms = []
    for m in mods:
        if isinstance(m, tuple):
            ms.append({"m": m[0].split("."), "as": m[1] or ""})
        else:
            ms.append({"m": m.split("."), "as": ""})
    return {"k": "import", "ms": ms}


def frm(mod, *names, lvl=0):
    ns = []
    for n in names:
        if isinstance(n, tuple):
            ns.append({"n": n[0], "as": n[1] or ""})
        else:
            ns.append({"n": n, "as": ""})
    return {"k": "from", "lvl": lvl, "m": mod.split(".") if mod else [], "ns": ns}


def w(n):
    return {"k": "w", "n": n}


def g(n):
    return {"k": "g", "n": n}


def r(n):
    return {"k": "r", "n": n}


def blk(t, n="", **parts):
    ps = []
    for key, ss in parts.items():
        ps.append({"p": key.rstrip("0123456789"), "ss": ss})
    return {"k": "blk", "t": t, "n": n, "ps": ps}


def body(ss, bad="", exec="ok", ns="", **render):
    """render: options that only affect how the text is written"""
    return {"ss": ss, "bad": bad, "exec": exec, "ns": ns, "_render": render}


# --- rendering ------------------------------------------------------------


class Renderer:
    def __init__(self, style=0):
        self.style = style
        self.lines = []
        self.uid = 0

    def emit(self, depth, text):
        self.lines.append(("\t" if self.style & 1 else "    ") * depth + text)

    def stmts(self, ss, depth):
        if not ss:
            self.emit(depth, "pass")
        for s in ss:
            self.stmt(s, depth)

    def globals_in(self, ss):
        out = []
        for s in ss:
            if s["k"] == "g" and s["n"] not in out:
                out.append(s["n"])
            elif s["k"] == "blk" and s["t"] not in ("def", "adef", "class"):
                for p in s["ps"]:
                    for n in self.globals_in(p["ss"]):
                        if n not in out:
                            out.append(n)
        return out

    def stmt(self, s, depth):
        k = s["k"]
        self.uid += 1
        v = self.uid + self.style
        if k == "import":
            self.emit(depth, "import " + ", ".join(".".join(m["m"]) + (f" as {m['as']}" if m["as"] else "") for m in s["ms"]))
        elif k == "from":
            names = ", ".join(n["n"] + (f" as {n['as']}" if n["as"] else "") for n in s["ns"])
            if self.style & 2 and names != "*":
                names = f"({names},)"
            self.emit(depth, f"from {'.' * s['lvl']}{'.'.join(s['m'])} import {names}")
        elif k == "w":
            n = s["n"]
            form = v % 5
            if form == 0:
                self.emit(depth, f"{n} = 1")
            elif form == 1:
                self.emit(depth, f"{n}: int = 2")
            elif form == 2:
                self.emit(depth, f"({n} := 3)")
            elif form == 3:
                self.emit(depth, f"{n}, = [4]")
            else:
                self.emit(depth, f"[*{n}] = ()")
        elif k == "g":
            self.emit(depth, f"{s['n']} = 5")
        elif k == "r":
            n = s["n"]
            form = v % 4
            if form == 0:
                self.emit(depth, f"{n}")
            elif form == 1:
                self.emit(depth, f"({n}, 7)")
            elif form == 2:
                self.emit(depth, f"f'{{{n}}}'")
            else:
                self.emit(depth, f"not {n}")
        elif k == "text":
            for ln in s["x"].splitlines():
                self.emit(depth, ln)
        elif k == "blk":
            self.block(s, depth, v)
        else:
            raise AssertionError(k)

    def fbody(self, ss, depth):
        gl = self.globals_in(ss)
        if gl:
            self.emit(depth, "global " + ", ".join(gl))
        self.stmts(ss, depth)

    def block(self, s, depth, v):
        t, n, ps = s["t"], s["n"], s["ps"]
        part = {}
        for p in ps:
            part.setdefault(p["p"], []).append(p["ss"])
        if t == "if":
            cond = ["__name__", "__name__ == '__main__'", "not __name__"][v % 3]
            self.emit(depth, f"if {cond}:")
            self.stmts(part["body"][0], depth + 1)
            if "orelse" in part:
                orelse = part["orelse"][0]
                self.emit(depth, "else:")
                self.stmts(orelse, depth + 1)
        elif t == "def" and not n:
            # code without a name
            x = part["body"][0][0]["n"]
            form = [f"lambda: {x}", f"({x} for _ in ())", f"lambda _x=1: ({x}, _x)", f"lambda: lambda: {x}",
                    f"lambda: [_ for _ in {x}]", f"lambda: ({x} for _ in ())"][v % 6]
            self.emit(depth, [f"{form}", f"({form})", f"[{form}, 8]"][v % 3])
        elif t in ("def", "adef"):
            pre = "async " if t == "adef" else ""
            sig = ["()", "(_x=1)", "(*_a, **_k)", "() -> None", "(_x: int = 2, /, *, _y=3)"][v % 5]
            self.emit(depth, f"{pre}def {n}{sig}:")
            if v % 7 == 0:
                self.emit(depth + 1, "'doc'")
            self.fbody(part["body"][0], depth + 1)
        elif t == "class":
            sig = ["", "()", "(object)", "(object, metaclass=type)"][v % 4]
            self.emit(depth, f"class {n}{sig}:")
            self.fbody(part["body"][0], depth + 1)
        elif t in ("try", "trystar"):
            self.emit(depth, "try:")
            self.stmts(part["body"][0], depth + 1)
            hs = part.get("handler", [])
            for i, h in enumerate(hs):
                star = "*" if t == "trystar" else ""
                if i == 0 and n:
                    self.emit(depth, f"except{star} ValueError as {n}:")
                elif i == len(hs) - 1 and not star and v % 2:
                    self.emit(depth, "except:")
                else:
                    self.emit(depth, f"except{star} {['ImportError', '(OSError, KeyError)'][i % 2]}:")
                self.stmts(h, depth + 1)
            if "orelse" in part:
                self.emit(depth, "else:")
                self.stmts(part["orelse"][0], depth + 1)
            if "final" in part:
                self.emit(depth, "finally:")
                self.stmts(part["final"][0], depth + 1)
        elif t == "with":
            self.emit(depth, f"with memoryview(b''){' as ' + n if n else ''}:")
            self.stmts(part["body"][0], depth + 1)
        elif t == "for":
            self.emit(depth, f"for {n} in ():")
            self.stmts(part["body"][0], depth + 1)
            if "orelse" in part:
                self.emit(depth, "else:")
                self.stmts(part["orelse"][0], depth + 1)
        elif t == "while":
            self.emit(depth, "while not __name__:")
            self.stmts(part["body"][0], depth + 1)
            if "orelse" in part:
                self.emit(depth, "else:")
                self.stmts(part["orelse"][0], depth + 1)
        elif t == "match":
            self.emit(depth, "match __name__:")
            for i, c in enumerate(part["case"]):
                self.emit(depth + 1, f"case {i}:")
                self.stmts(c, depth + 2)
        else:
            raise AssertionError(t)


def render(b, tag, marks=None):
    """Text (bytes) for a body."""
    opt = b.get("_render", {})
    if "raw" in opt:
        return opt["raw"].encode("utf-8")
    rn = Renderer(opt.get("style", 0))
    head = []
    enc = "utf-8"
    if b["bad"] == "enc":
        pass
    elif opt.get("enc") == "latin-1":
        head.append("# -*- coding: latin-1 -*-")
        enc = "latin-1"
    if opt.get("doc"):
        head.append('"""' + opt["doc"] + '"""')
    if opt.get("mention"):
        head.append("# not like pkgutil and pkg_resources")
    if opt.get("noise"):
        head.append("# import notme")
        head.append("'import notme; from notme import nothing'")
    if b["ns"] == "pkgutil":
        head.append("__path__ = __import__('pkgutil').extend_path(__path__, __name__)")
    elif b["ns"] == "pkg_resources":
        head.append("try: __import__('pkg_resources').declare_namespace(__name__)")
        head.append("except Exception: pass")
    if marks:
        head.append(f"open({marks!r}, 'a').write({tag + chr(10)!r})")
    if b["ss"]:
        rn.stmts(b["ss"], 0)
    lines = head + rn.lines
    if opt.get("enc") == "latin-1":
        lines.append("# caf\xe9")
    elif opt.get("unicode"):
        lines.append("# \u20ac \U0001f600")
    ex = b["exec"]
    if ex == "raise":
        lines.append("raise RuntimeError('broken')")
    elif ex == "importerror":
        lines.append("raise ImportError('broken')")
    elif ex == "notfound":
        lines.append("raise ModuleNotFoundError('needs something')")
    elif ex == "exit":
        lines.append("raise SystemExit(3)")
    elif ex == "assert":
        lines.append("assert not __name__")
    if b["bad"] == "parse":
        lines.append(["def (:", "x = = 1", "import", "from . import", "x = " + "-" * 7000 + "1", "x = y" + ".z" * 20000][opt.get("badform", 0) % 6])
    elif b["bad"] == "sem":
        lines.append(["return 1", "break", "nonlocal zz", "continue"][opt.get("badform", 0) % 4])
    nl = "\r\n" if opt.get("crlf") else "\n"
    text = nl.join("\n".join(lines).split("\n"))
    if not opt.get("noeol"):
        text += nl
    if b["bad"] == "enc":
        form = opt.get("badform", 0) % 3
        if form == 0:
            return text.encode("utf-8") + b"# \xff\xfe\n"
        if form == 1:
            return b"# -*- coding: ascii -*-\n" + text.encode("utf-8") + "# caf\xe9\n".encode("utf-8")
        return b"# -*- coding: nosuchcodec -*-\n" + text.encode("utf-8")
    data = text.encode(enc)
    if opt.get("bom") and enc == "utf-8":
        data = b"\xef\xbb\xbf" + data
    return data


def pyc_bytes(b, tag, filename, marks=None):
    opt = b.get("_render", {})
    if b["bad"]:
        form = opt.get("badform", 0) % 6
        good = bytes(_be._code_to_timestamp_pyc(compile("import notme", filename, "exec"), 0, 0))
        if form == 0:
            return b""
        if form == 1:
            return b"\x00\x01\x02\x03" + good[4:]
        if form == 2:
            return good[: len(good) // 2]
        if form == 3:
            return good[:16] + b"\xff\xff\xff\xff"
        if form == 4:
            return good[:16] + marshal.dumps("not code")
        return good[:7]
    src = render(b, tag, marks)
    code = compile(src, filename, "exec", dont_inherit=True)
    if opt.get("hashpyc"):
        return bytes(_be._code_to_hash_pyc(code, importlib.util.source_hash(src), False))
    return bytes(_be._code_to_timestamp_pyc(code, 0, len(src)))


# --- worlds ---------------------------------------------------------------


class World:
    """A file tree, its search path and the interpreter around it."""

    def __init__(self):
        self.path = []  # locations on sys.path
        self.kinds = {}  # location -> "dir" | "zip"
        self.locs = {}  # location -> list of entries
        self.bodies = []
        self.scripts = []
        self.sysalias = []
        self.dists = []  # in listing order, see add_dist
        self.extra_files = []  # (path, bytes) written as they are
        self.strings = set()
        self.builtin = ["gc", "marshal", "errno", "atexit"]
        self.frozen = [
            {"n": ["__hello__"], "pkg": False, "body": 1, "search": []},
            {"n": ["__phello__"], "pkg": True, "body": 1, "search": PHELLO},
            {"n": ["__phello__", "spam"], "pkg": False, "body": 1, "search": []},
        ]
        # __hello__, __phello__ and __phello__.spam are the same file in CPython
        self.bodies.append(body([w("initialized"), blk("def", "main", body=[])]))

    def entry(self, name, kind="dir"):
        loc = "$R/" + name
        self.path.append(loc)
        self.kinds[loc] = kind
        self.locs.setdefault(loc, [])
        return loc

    def mkdir(self, loc, *names):
        for n in names:
            if not any(e["stem"] == n and e["kind"] == "dir" for e in self.locs[loc]):
                self.locs[loc].append({"stem": n, "kind": "dir", "body": 0, "file": loc + "/" + n})
            loc = loc + "/" + n
            self.locs.setdefault(loc, [])
        return loc

    def add_body(self, b):
        self.bodies.append(b)
        return len(self.bodies)

    def file(self, loc, stem, kind, b=None, suffix=None):
        """kind: py pyc so data"""
        idx = 0
        if b is not None:
            idx = b if isinstance(b, int) else self.add_body(b)
        fn = stem + (SUFFIX.get(kind, "") if suffix is None else suffix)
        self.locs[loc].append({"stem": stem, "kind": kind, "body": idx, "file": loc + "/" + fn})
        return idx

    def module(self, loc, dotted, kind="py", b=None):
        """Add a module below loc; directories are made as needed."""
        parts = dotted.split(".")
        d = self.mkdir(loc, *parts[:-1])
        return self.file(d, parts[-1], kind, b if kind != "so" else None)

    def package(self, loc, dotted, kind="py", b=None):
        d = self.mkdir(loc, *dotted.split("."))
        return self.file(d, "__init__", kind, b if kind != "so" else None)

    def script(self, name, b, missing=False):
        path = "$R/" + name
        if not missing:
            self.scripts.append({"path": path, "file": path, "body": self.add_body(b)})
        return path

    def add_dist(self, loc, name, version, files, mods, dirname=None):
        """files: absolute ($R) names; mods: dotted names"""
        d = loc + "/" + (dirname or f"{name.replace('-', '_')}-{version}.dist-info")
        self.dists.append({"id": d, "loc": loc, "name": name, "version": version,
                           "files": list(files), "mods": sorted(mods)})
        return d

    # -- for the specification

    def abstract(self, extra_strings=()):
        st = set(extra_strings)

        def walk(x):
            if isinstance(x, str):
                st.add(x)
            elif isinstance(x, dict):
                for k, v in x.items():
                    if k != "_render":
                        walk(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v)

        for b in self.bodies:
            walk(b["ss"])
        locs = {}
        for loc, es in self.locs.items():
            locs[loc] = sorted(es, key=lambda e: e["file"])
            for e in es:
                walk(e["stem"])
        dists = []
        for d in sorted(self.dists, key=lambda d: (self.path.index(d["loc"]), os.path.basename(d["id"]))):
            dists.append({"id": d["id"], "name": d["name"], "version": d["version"], "files": d["files"],
                          "mods": [m.split(".") for m in d["mods"]]})
            walk(dists[-1]["mods"])
        if PHELLO:
            locs[PHELLO[0]] = [{"stem": n, "kind": "py", "body": 1, "file": f"{PHELLO[0]}/{n}.py"} for n in ("__init__", "spam")]
            st.update(("__init__", "spam"))
        st.discard("")
        idents = [s for s in st if s.isidentifier()]
        return {
            "path": self.path,
            "locs": locs,
            "bodies": [{"ss": b["ss"], "bad": b["bad"], "exec": b["exec"], "ns": b["ns"]} for b in self.bodies],
            "builtin": self.builtin,
            "frozen": self.frozen,
            "sysalias": self.sysalias,
            "dists": dists,
            "scripts": self.scripts,
            "idents": idents,
            "rk": {s: i + 1 for i, s in enumerate(sorted(st))},
        }

    # -- for the implementation

    def materialise(self, root, marks=None):
        """marks: file in which all code that is executed leaves a line"""
        zips = {loc: [] for loc, k in self.kinds.items() if k == "zip"}

        def put(path, data):
            for z in zips:
                if path.startswith(z + "/"):
                    zips[z].append((path[len(z) + 1:], data))
                    return
            real = path.replace("$R", root, 1)
            os.makedirs(os.path.dirname(real), exist_ok=True)
            with open(real, "wb") as fp:
                fp.write(data)

        os.makedirs(os.path.join(root, "bin"), exist_ok=True)
        for loc in self.locs:
            z = [z for z in zips if loc == z or loc.startswith(z + "/")]
            if z:
                if loc != z[0]:
                    zips[z[0]].append((loc[len(z[0]) + 1:] + "/", None))
            else:
                os.makedirs(loc.replace("$R", root, 1), exist_ok=True)
        for loc, es in self.locs.items():
            for e in es:
                if e["kind"] == "dir":
                    continue
                if e["kind"] == "data":
                    put(e["file"], b"data\n")
                elif e["kind"] == "so":
                    put(e["file"], b"")
                elif e["kind"] == "py":
                    put(e["file"], render(self.bodies[e["body"] - 1], e["file"], marks))
                elif e["kind"] == "pyc":
                    put(e["file"], pyc_bytes(self.bodies[e["body"] - 1], e["file"], e["file"].replace("$R", root, 1), marks))
        for s in self.scripts:
            put(s["file"], render(self.bodies[s["body"] - 1], s["file"], marks))
        for d in self.dists:
            put(d["id"] + "/METADATA", f"Metadata-Version: 2.1\nName: {d['name']}\nVersion: {d['version']}\n\ndescription\n".encode())
            base = d["loc"] + "/"
            lines = []
            for f in d["files"]:
                rel = f[len(base):] if f.startswith(base) else "../" + f[len("$R/"):]
                lines.append(f"{rel},sha256=x,1" if len(lines) % 2 else f"{rel},,")
            put(d["id"] + "/RECORD", ("\n".join(lines) + "\n").encode() if lines else b"")
        for path, data in self.extra_files:
            put(path, data)
        for z, files in zips.items():
            real = z.replace("$R", root, 1)
            os.makedirs(os.path.dirname(real), exist_ok=True)
            with zipfile.ZipFile(real, "w") as zf:
                for name, data in sorted(files, key=lambda x: x[0]):
                    zf.writestr(name, b"" if data is None else data)
