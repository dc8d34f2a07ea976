"""Reports: graphs with arbitrary names, the three reports, and their parsers.

The parsers only read what is there, spec/Output.tla says what has to be there.
"""
import html.parser
import io
import json
import os
import random

import gen
import run
import tlc
import validate

# --- graphs ---------------------------------------------------------------


def describe(g):
    import modulegraph2 as mg
    nodes = []
    for n in g.nodes():
        if isinstance(n, mg.PyPIDistribution):
            nodes.append({"id": n.identifier, "name": n.name, "cls": "PyPIDistribution", "file": "", "dist": "", "isdist": True})
        else:
            nodes.append({"id": n.identifier, "name": n.name, "cls": type(n).__name__, "file": "" if n.filename is None else str(n.filename),
                          "dist": n.distribution.name if n.distribution is not None else "", "isdist": False})
    edges = [{"s": s.identifier, "d": d.identifier, "opt": [bool(e.is_optional) for e in es]} for s, d, es in g.edges()]
    return {"nodes": nodes, "edges": edges, "roots": [n.identifier for n in g.roots()]}


def ranks(g):
    return {i: k + 1 for k, i in enumerate(sorted({n["id"] for n in g["nodes"]}))}


PIECES = ["a", "b", "mod", "Xy", "_", "1", "<", ">", "&", "&amp;", "&lt;b", '"', "'", "\\", "\\\\", "\\n", "\\N", "->", "{", "}", "[", "]", ";", "=", ",", "#",
          "//", "/*", "--", " ", "\t", "%s", "%", "é", "日本", "\U0001f40d", "</a>", "<h2>", "node", "digraph", "subgraph", "edge", "-1", ":", "|", "$", "@", "`"]
PLAIN = ["a", "b", "pkg", "mod", "lib", "Xy", "_z", "node", "graph", "edge", "strict", "subgraph", "digraph"]


def word(rng, odd):
    if rng.random() > odd:
        return rng.choice(PLAIN)
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 4)))


def ident(rng, odd, known):
    x = rng.random()
    if known and x < 0.35:
        # names that are prefixes of each other, with and without a dot
        return rng.choice(known) + rng.choice([".", ".", ".", "", "..", "x"]) + word(rng, odd)
    nm = ".".join(word(rng, odd) for _ in range(rng.choice([1, 1, 2, 2, 3, 8])))
    if x > 0.93:
        nm = rng.choice(["..", ".", "..."]) + nm
    return nm


def make_node(rng, cls, nm, dists):
    import pathlib

    import modulegraph2 as mg
    dist = rng.choice(dists) if dists and rng.random() < 0.5 else None
    fn = None
    if rng.random() < 0.6:
        fn = pathlib.Path("/x") / (nm.replace("/", "_").replace("\0", "") + rng.choice([".py", "", " x.py", "<.py"]))
    common = dict(name=nm, loader=None, distribution=dist, extension_attributes={}, filename=fn)
    code = dict(globals_written=set(), globals_read=set(), code=None)
    if cls == "Script":
        return mg.Script(nm, None)
    if cls in ("ExcludedModule", "MissingModule", "InvalidRelativeImport"):
        return getattr(mg, cls)(nm)
    if cls in ("AliasNode", "VirtualNode"):
        return getattr(mg, cls)(nm, word(rng, 0))
    if cls == "NamespacePackage":
        return mg.NamespacePackage(**common, search_path=[], has_data_files=False)
    if cls == "Package":
        init = mg.SourceModule(**common, **code)
        return mg.Package(**common, init_module=init, search_path=[], has_data_files=False, namespace_type=None)
    return getattr(mg, cls)(**common, **code)


CLASSES = ["SourceModule"] * 3 + ["BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "InvalidModule", "Script", "Script",
           "Package", "Package", "NamespacePackage", "MissingModule", "MissingModule", "ExcludedModule", "InvalidRelativeImport", "AliasNode", "VirtualNode"]


def synthetic(sid, seed, odd=0.4, size=(1, 9), p_distnode=0.3):
    """A graph put together with the generic graph API."""
    import modulegraph2 as mg
    rng = random.Random(f"{seed}/{sid}")
    g = mg.ModuleGraph(use_stdlib_implies=False, use_builtin_hooks=False)
    dists = []
    for i in range(rng.randint(0, 3)):
        nm = word(rng, odd) + str(i)
        dists.append(mg.PyPIDistribution(f"/sp/{word(rng, odd)}{i}.dist-info", nm, "1", set(), set(), {}))
    known = []
    for _ in range(rng.randint(*size)):
        nm = ident(rng, odd, known)
        if not nm.strip() or nm != nm.strip() or nm in known or "\n" in nm:
            continue
        known.append(nm)
        g.add_node(make_node(rng, rng.choice(CLASSES), nm, dists))
    for d in dists:
        if rng.random() < p_distnode:
            g.add_node(d)
            known.append(d.identifier)
    if known:
        for _ in range(rng.randint(0, 2 * len(known))):
            s, d = rng.choice(known), rng.choice(known)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                g.add_edge(s, d, mg.DependencyInfo(rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, rng.choice([None, "x", "y"])))
        for nm in known:
            if rng.random() < 0.3:
                g.add_root(nm)
    return g


# --- parsers --------------------------------------------------------------


def text_rows(text):
    """The lines after the line that consists of dashes."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for i, ln in enumerate(lines):
        if ln.strip() and set(ln) <= set("- "):
            return lines[i + 1:]
    return ["<no header>"] + lines


class Html(html.parser.HTMLParser):
    FRAME = {"html", "head", "title", "body", "h1", "h2", "p", "a"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.sections, self.odd = [], []
        self.link = None
        self.into = None
        self.heading = False
        self.title = 0
        self.text = ""

    def handle_starttag(self, tag, attrs):
        self.flush()
        d = dict(attrs)
        if tag not in self.FRAME:
            self.odd.append("tag " + tag)
        if tag == "a" and ("name" in d or "id" in d):
            self.sections.append({"a": d.get("name", d.get("id")), "h": "", "dep": [], "use": []})
            self.into = None
        elif tag == "a" and "href" in d:
            h = d["href"]
            if not h.startswith("#"):
                self.odd.append("link " + h)
            self.link = [h[1:], ""]
        elif tag == "h2":
            self.heading = True
        elif tag in ("h1", "title"):
            self.title += 1

    def handle_endtag(self, tag):
        self.flush()
        if tag not in self.FRAME:
            self.odd.append("tag " + tag)
        if tag == "a" and self.link is not None:
            if self.into is None or not self.sections:
                self.odd.append("link outside of a list")
            else:
                self.sections[-1][self.into].append(self.link)
            self.link = None
        elif tag == "h2":
            self.heading = False
        elif tag in ("h1", "title"):
            self.title -= 1

    def handle_data(self, data):
        self.text += data

    def flush(self):
        data, self.text = self.text, ""
        if self.link is not None:
            self.link[1] += data
        elif self.heading and self.sections:
            self.sections[-1]["h"] += data
        elif self.title:
            pass
        else:
            t = data.strip()
            if t == "Depends on:":
                self.into = "dep"
            elif t == "Used by:":
                self.into = "use"
            elif t.strip(",") != "":
                self.odd.append("text " + t)

    def handle_comment(self, data):
        self.odd.append("comment")

    def handle_decl(self, decl):
        if not decl.lower().startswith("doctype"):
            self.odd.append("declaration")

    def handle_pi(self, data):
        self.odd.append("processing instruction")


def parse_html(text):
    p = Html()
    p.feed(text)
    p.close()
    p.flush()
    return {"sections": p.sections, "odd": p.odd}


class DotError(Exception):
    pass


def dot_tokens(text):
    i, n = 0, len(text)
    out = []
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif text.startswith("->", i) or text.startswith("--", i):
            out.append((text[i:i + 2], text[i:i + 2]))
            i += 2
        elif text.startswith("//", i) or (c == "#" and (i == 0 or text[i - 1] == "\n")):
            while i < n and text[i] != "\n":
                i += 1
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise DotError("comment")
            i = j + 2
        elif c in "{}[]=;,":
            out.append((c, c))
            i += 1
        elif c == '"':
            i += 1
            s = ""
            while True:
                if i >= n:
                    raise DotError("string without end")
                if text[i] == "\\" and i + 1 < n and text[i + 1] in '"\\':
                    s += text[i + 1]
                    i += 2
                elif text[i] == '"':
                    i += 1
                    break
                else:
                    s += text[i]
                    i += 1
            out.append(("id", s))
        elif c.isalnum() or c == "_" or c == "." or c == "-" or ord(c) >= 128:
            j = i
            while j < n and (text[j].isalnum() or text[j] in "_." or ord(text[j]) >= 128 or (j == i and text[j] == "-")):
                j += 1
            w = text[i:j]
            numeral = w.lstrip("-").replace(".", "", 1).isdigit()
            if not numeral and (w[0].isdigit() or "." in w or "-" in w):
                raise DotError("bad identifier " + w)
            out.append(("id" if w.lower() not in ("node", "edge", "graph", "digraph", "subgraph", "strict") else w.lower(), w))
            i = j
        else:
            raise DotError("unexpected " + c)
    return out


def parse_dot(text):
    doc = {"nodes": [], "edges": [], "clusters": [], "odd": []}
    try:
        toks = dot_tokens(text)
        pos = 0

        def peek():
            return toks[pos][0] if pos < len(toks) else "end"

        def take(kind):
            nonlocal pos
            if peek() != kind:
                raise DotError(f"expected {kind} got {toks[pos:pos + 3]}")
            pos += 1
            return toks[pos - 1][1]

        def attrs():
            out = []
            while peek() == "[":
                take("[")
                while peek() != "]":
                    k = take("id")
                    take("=")
                    out.append([k, take("id")])
                    if peek() in (",", ";"):
                        take(peek())
                take("]")
            return out

        def statements(cluster):
            while peek() != "}":
                if peek() == ";":
                    take(";")
                    continue
                if peek() == "subgraph":
                    take("subgraph")
                    nm = take("id") if peek() == "id" else ""
                    take("{")
                    c = {"label": "", "ids": []}
                    statements(c)
                    take("}")
                    if cluster is not None or not nm.startswith("cluster"):
                        doc["odd"].append("subgraph " + nm)
                    doc["clusters"].append(c)
                    continue
                if peek() in ("node", "edge", "graph"):
                    take(peek())
                    attrs()
                    continue
                a = take("id")
                if peek() == "=":
                    take("=")
                    v = take("id")
                    if cluster is not None and a == "label":
                        cluster["label"] = v
                elif peek() == "->":
                    take("->")
                    b = take("id")
                    if cluster is not None:
                        doc["odd"].append("edge in cluster")
                    doc["edges"].append({"s": a, "d": b, "attrs": attrs()})
                elif cluster is not None:
                    cluster["ids"].append(a)
                    if attrs():
                        doc["odd"].append("attributes in cluster")
                else:
                    doc["nodes"].append({"id": a, "attrs": attrs()})

        if peek() == "strict":
            take("strict")
        take("digraph")
        if peek() == "id":
            take("id")
        take("{")
        statements(None)
        take("}")
        if peek() != "end":
            doc["odd"].append("text after the graph")
    except DotError as e:
        doc["odd"].append("syntax: " + str(e))
    return doc


def parsed(kind, text):
    if kind == "text":
        return {"kind": kind, "rows": text_rows(text)}
    return {"kind": kind, "doc": parse_html(text) if kind == "html" else parse_dot(text)}


def reports(g, kinds):
    from modulegraph2 import __main__ as cli
    out = []
    for k in kinds:
        fp = io.StringIO()
        if k == "text":
            g.report(fp)
        else:
            cli.print_graph(fp, cli.OutputFormat(k), g)
        out.append(parsed(k, fp.getvalue()))
    return out


# --- cases ----------------------------------------------------------------


def case_synthetic(args, kinds):
    sid, seed, profile = args

    def func():
        g = synthetic(sid, seed, **profile)
        d = describe(g)
        return {"id": sid, "g": d, "rk": ranks(d), "reports": reports(g, kinds)}

    return run.in_child(func)


def case_world(args, kinds, tmp):
    """The reports of the graph at the end of a scenario"""
    sid, seed, profile = args
    scn = gen.make(sid, seed, **profile)
    scn["tmp"] = tmp
    holder = []

    def after(g):
        d = describe(g)
        holder.append({"id": sid, "g": d, "rk": ranks(d), "reports": reports(g, kinds)})

    scn["after"] = after
    scn["result"] = holder
    return run.run_scenario(scn)


def _one(job):
    kind, args, kinds, tmp = job
    try:
        r = case_synthetic(args, kinds) if kind == "synthetic" else case_world(args, kinds, tmp)
    except Exception as e:  # noqa: B902
        r = {"fail": run.describe(e)}
    return job, r


def judge(cases, tmp, module="OutTrace"):
    """Runs TLC over the cases; returns (list of (case index, report, fails), stats)."""
    path = os.path.join(tmp, "out.json")
    with open(path, "w") as fp:
        json.dump(cases, fp)
    out, stats = tlc.run(module, {"BATCH": path}, workers=8)
    os.unlink(path)
    recs = tlc.records(out)
    want = sum(len(c["reports"]) for c in cases)
    if len(recs) != want:
        raise tlc.TlcError(f"{len(recs)} of {want} verdicts\n" + "\n".join(ln for ln in out.splitlines() if "rror" in ln)[:3000] + out[-1500:])
    return [(r["tid"] - 1, r["op"], r["fails"]) for r in recs if r["kind"] == "FAIL"], stats


def check(res, factor, kinds, jobs):
    import multiprocessing
    tmp = validate.scratch()
    try:
        for i in range(0, len(jobs), 1500):
            with multiprocessing.get_context("fork").Pool(8) as pool:
                done = pool.map(_one, [(k, a, kinds, tmp) for k, a in jobs[i:i + 1500]], chunksize=4)
            cases, who = [], []
            for job, r in done:
                data = {"kind": "outputs", "source": job[0], "args": list(job[1]), "kinds": list(kinds)}
                if "fail" in r:
                    res.violations.append((f"{job[0]} graph {job[1][0]}: the reports could not be made: {r['fail']}", data))
                else:
                    cases.append(r["ok"])
                    who.append(data)
            if cases:
                bad, stats = judge(cases, tmp)
                res.add_stats(stats)
                res.traces += len(cases)
                if len(res.samples) < 3:
                    c = cases[len(cases) // 2]
                    res.samples.append({"graph": c["id"], "nodes": [n["id"] for n in c["g"]["nodes"]][:8], "edges": len(c["g"]["edges"]), "roots": c["g"]["roots"][:4]})
                for k, op, fails in sorted(bad, key=lambda x: x[:2]):
                    res.violations.append((f"{who[k]['source']} graph {cases[k]['id']}: " + "; ".join(f"{f['cl']} {f['a']!r} {f['b']!r}" for f in fails[:4]),
                                           dict(who[k], fails=fails[:10])))
            if len(res.violations) >= 5:
                break
    finally:
        validate.cleanup(tmp)


WORLD = [dict(p_dist=0.8, n_ops=(2, 6), p_post=0, p_miss=0), dict(n_ops=(2, 5), p_dist=0.5, w_ops=dict(module=3, script=3, source=1, ctx=0, dist=2))]


def jobs_for(res, factor):
    jobs = []
    for i in range(int(500 * factor)):
        jobs.append(("synthetic", (f"o{i}", res.seed, dict(odd=[0.0, 0.4, 0.8][i % 3], size=[(1, 9), (0, 3), (6, 20)][i % 7 % 3]))))
    for i in range(int(160 * factor)):
        jobs.append(("world", (f"w{i}", res.seed, WORLD[i % 2])))
    return jobs


def check_html_text(res, factor):
    check(res, factor, ("text", "html"), jobs_for(res, factor))


def check_dot(res, factor):
    check(res, factor, ("dot",), jobs_for(res, factor))


def replay(res, data):
    check(res, 1, tuple(data["kinds"]), [(data["source"], tuple(data["args"]))])
