----------------------------- MODULE ModuleGraph -----------------------------
(* The graph builder: state and transitions.                                *)
(*                                                                          *)
(* The state of one graph is a record; every operation of the public API    *)
(* and every unit of delayed work maps a state to a state.  Names are       *)
(* sequences of strings ("a.b" is <<"a","b">>); the name of an invalid      *)
(* relative import starts with its dots (<<"..","x">>); scripts and         *)
(* distributions have one part.                                             *)
EXTENDS Finder

Attr(opt, glob, fl, as) == <<opt, glob, fl, as>>
DEFAULT == Attr(FALSE, TRUE, FALSE, "")
InfoAttr(i, fl, as) == Attr(Optional(i), IsGlobal(i), fl, as)

\* Configured actions for names
ExcludeAct    == [k |-> "exclude", to |-> <<>>, refs |-> <<>>]
AliasAct(to)  == [k |-> "alias",   to |-> to,   refs |-> <<>>]
VirtualAct(t) == [k |-> "virtual", to |-> t,    refs |-> <<>>]
ImplyAct(rs)  == [k |-> "refs",    to |-> <<>>, refs |-> rs]

EmptyState(sched) ==
    [nodes |-> EmptyFn, order |-> <<>>, out |-> EmptyFn, edges |-> EmptyFn,
     roots |-> {}, lazy |-> (<<"__main__">> :> ExcludeAct), stack |-> <<>>, seen |-> {},
     post |-> <<>>, miss |-> <<>>, plog |-> <<>>, mlog |-> <<>>, marks |-> {}, looked |-> {},
     builtin |-> TRUE, err |-> "", sched |-> sched]

Has(st, n) == n \in DOMAIN st.nodes
Cls(st, n) == st.nodes[n].cls

AddNode(st, n, nd) ==
    [st EXCEPT !.nodes = Put(@, n, nd), !.order = Append(@, n), !.out = Put(@, n, <<>>), !.edges = Put(@, n, {})]

AddEdge(st, s, d, attr, why) ==
    [st EXCEPT !.out[s] = IF \E i \in DOMAIN @ : @[i] = d THEN @ ELSE Append(@, d),
               !.edges[s] = @ \cup {<<d, attr, why>>}]

\* All edges, without the reasons for them
EdgesOf(st) == UNION {{<<n, e[1], e[2]>> : e \in st.edges[n]} : n \in DOMAIN st.edges}

Push(st, w) == [st EXCEPT !.stack = Append(@, w)]

\* The order in which the imports of one node are processed is up to the
\* scheduler: as the code does it, reversed, or shuffled in some way.
Arranged(st, s) ==
    CASE st.sched.perm # 0 ->
           SortBy(DOMAIN s, LAMBDA i : ((i * st.sched.perm + Len(s)) % 11) * 1000 + i)
      [] st.sched.rev -> [i \in DOMAIN s |-> Len(s) + 1 - i]
      [] OTHER -> [i \in DOMAIN s |-> i]

\* Schedule the imports of a node, and its post-processing below them.
Schedule(st, n, infos) ==
    LET s1 == IF n \in st.seen THEN st
              ELSE [Push(st, [t |-> "post", n |-> n]) EXCEPT !.seen = @ \cup {n}]
        a == Arranged(st, infos)
    IN [s1 EXCEPT !.stack = @ \o [k \in DOMAIN a |-> [t |-> "imp", n |-> n, i |-> infos[a[k]]]]]

AddPlain(st, n, cls, to) ==
    Schedule(AddNode(st, n, [BlankNode EXCEPT !.cls = cls, !.to = to]), n, <<>>)

R(st, n) == [st |-> st, n |-> n]
NoName == <<>>

-----------------------------------------------------------------------------
RECURSIVE FindOrLoad(_, _, _, _, _)     \* W, state, importing node, name, link missing
RECURSIVE ImpliedOrLoad(_, _, _, _)
RECURSIVE Load(_, _, _, _)
RECURSIVE CreateMissing(_, _, _, _)
RECURSIVE Step(_, _)
RECURSIVE Drain(_, _)
RECURSIVE DoImportPackage(_, _, _, _)
RECURSIVE DoNames(_, _, _, _, _, _)
RECURSIVE RunPost(_, _, _, _)
RECURSIVE AskHooks(_, _, _, _, _)
RECURSIVE LinkRefs(_, _, _, _)
RECURSIVE MypycHook(_, _, _)

FindOrLoad(W, st, imp, name, link) ==
    IF Has(st, name) THEN R(st, name)
    ELSE IF Len(name) = 1 THEN ImpliedOrLoad(W, st, imp, name)
    ELSE LET p == FindOrLoad(W, st, imp, ParentOf(name), TRUE)
             r == IF Has(p.st, name) THEN R(p.st, name)
                  ELSE IF Cls(p.st, p.n) = "MissingModule" THEN CreateMissing(W, p.st, imp, name)
                  ELSE IF Cls(p.st, p.n) = "ExcludedModule"
                  THEN R(AddPlain(p.st, name, "ExcludedModule", <<>>), name)
                  ELSE ImpliedOrLoad(W, p.st, imp, name)
         IN IF link \/ Cls(r.st, r.n) # "MissingModule"
            THEN R(AddEdge(r.st, r.n, p.n, DEFAULT, "parent"), r.n)
            ELSE r

LinkRefs(W, st, n, refs) ==
    IF refs = <<>> THEN st
    ELSE LET r == FindOrLoad(W, st, n, Head(refs), TRUE)
         IN LinkRefs(W, AddEdge(r.st, n, r.n, DEFAULT, "implied"), n, Tail(refs))

ImpliedOrLoad(W, st, imp, name) ==
    IF name \notin DOMAIN st.lazy THEN Load(W, st, imp, name)
    ELSE LET act == st.lazy[name]
             s1 == [st EXCEPT !.lazy = [x \in DOMAIN @ \ {name} |-> @[x]]]
         IN CASE act.k = "exclude" -> R(AddPlain(s1, name, "ExcludedModule", <<>>), name)
              [] act.k \in {"alias", "virtual"} ->
                   LET s2 == AddPlain(s1, name, IF act.k = "alias" THEN "AliasNode" ELSE "VirtualNode", act.to)
                       r == FindOrLoad(W, s2, name, act.to, TRUE)
                   IN R(AddEdge(r.st, name, r.n, DEFAULT, "alias"), name)
              [] act.k = "refs" ->
                   LET r == FindOrLoad(W, s1, imp, name, TRUE)
                   IN R(LinkRefs(W, r.st, r.n, act.refs), r.n)

Load(W, st00, imp, name) ==
    LET r == Resolve(W, name)
        st == [st00 EXCEPT !.looked = @ \cup {name}] IN
    IF r.k = "none" THEN CreateMissing(W, st, imp, name)
    ELSE LET nd == NodeFor(W, r)
             s0 == [st EXCEPT !.marks = @ \cup {"load-" \o r.k}]
         IN
         IF r.n # name
         THEN \* registered in sys.modules as another module
              LET s1 == AddPlain(s0, name, "AliasNode", r.n)
                  \* actions that are configured for the other module
                  conf == \E k \in 1 .. Len(r.n) : LET p == SubSeq(r.n, 1, k) IN
                              p \in DOMAIN s1.lazy \/ (Has(s1, p) /\ Cls(s1, p) = "ExcludedModule")
                  sc == IF conf THEN FindOrLoad(W, s1, name, r.n, TRUE).st ELSE s1
                  s2 == IF Has(sc, r.n) THEN sc
                        ELSE LET t1 == Schedule(AddNode(sc, r.n, nd), r.n, ImportsOf(W, nd))
                             IN IF Len(r.n) = 1 THEN t1
                                ELSE LET p == FindOrLoad(W, t1, NoName, ParentOf(r.n), TRUE)
                                     IN AddEdge(p.st, r.n, p.n, DEFAULT, "parent")
              IN R(AddEdge(s2, name, r.n, DEFAULT, "alias"), name)
         ELSE LET s1 == AddNode(s0, name, nd)
                  s2 == IF nd.ns = "" THEN s1
                        ELSE LET p == FindOrLoad(W, s1, NoName, <<nd.ns>>, TRUE)
                             IN AddEdge(p.st, name, p.n, DEFAULT, "nspkg")
              IN R(Schedule(s2, name, ImportsOf(W, nd)), name)

-----------------------------------------------------------------------------
(* Missing modules and the hooks for them.                                  *)

\* The builtin hook for SWIG.
SwigHelper == "swig_import_helper"
\* The name under which the extension is looked up, <<>> when it is not
SwigName(st, imp, name) ==
    IF /\ st.builtin
       /\ imp # NoName /\ Has(st, imp) /\ Cls(st, imp) \in PkgCls \cup ModCls
       /\ Len(name) = 1 /\ name[1] = "_" \o Stem(imp)
       /\ SwigHelper \in st.nodes[imp].gw
    THEN LET base == IF Cls(st, imp) \in PkgCls THEN imp ELSE ParentOf(imp)
         IN IF base = <<>> THEN NoName ELSE Append(base, name[1])
    ELSE NoName
SwigTarget(W, n) ==
    LET r == Resolve(W, n)
    IN IF n = NoName THEN None ELSE IF r.k = "mod" /\ r.e.kind = "so" THEN r ELSE None

\* Hooks of the user, most recently added first: a sequence of rules
\* [n, ret, to]; ret is "virtual", "alias", "module" or "none".
AskHooks(W, st, imp, name, h) ==
    IF h = 0
    THEN LET swn == SwigName(st, imp, name)
             sw == SwigTarget(W, swn)
             s0 == IF swn = NoName THEN st ELSE [st EXCEPT !.looked = @ \cup {swn}] IN
         IF sw.k = "none" THEN R(s0, NoName)
         ELSE R(AddNode(s0, name, [NodeFor(W, sw) EXCEPT !.scanned = ""]), name)
    ELSE LET rules == Rng(st.miss[h])
             s1 == [st EXCEPT !.mlog = Append(@, [h |-> h, imp |-> imp, n |-> name])]
             m == {q \in rules : q.n = name /\ q.ret # "none"}
         IN IF m = {} THEN AskHooks(W, s1, imp, name, h - 1)
            ELSE LET q == CHOOSE x \in m : TRUE IN
                 CASE q.ret = "virtual" ->
                        R(AddNode(s1, name, [BlankNode EXCEPT !.cls = "VirtualNode", !.to = q.to]), name)
                   [] q.ret = "alias" ->
                        LET s2 == AddNode(s1, name, [BlankNode EXCEPT !.cls = "AliasNode", !.to = q.to])
                            t == FindOrLoad(W, s2, name, q.to, TRUE)
                        IN R(AddEdge(t.st, name, t.n, DEFAULT, "hook"), name)
                   [] q.ret = "module" ->
                        \* the hook answers with the node of another name, that
                        \* module is processed before anything else
                        LET t == FindOrLoad(W, [s1 EXCEPT !.stack = <<>>], NoName, q.to, TRUE)
                            d == Drain(W, [t.st EXCEPT !.roots = @ \cup {t.n}])
                        IN R([d EXCEPT !.stack = s1.stack], t.n)

CreateMissing(W, st, imp, name) ==
    LET r == AskHooks(W, st, imp, name, Len(st.miss)) IN
    IF r.n # NoName THEN r
    ELSE R(AddPlain(r.st, name, "MissingModule", <<>>), name)

-----------------------------------------------------------------------------
(* Imports.                                                                 *)

\* The name a relative import starts from; <<>> when it leaves the package.
RelBase(st, n, lvl) ==
    LET cls == Cls(st, n)
        up == IF cls \in PkgCls \cup {"NamespacePackage"} THEN lvl - 1 ELSE lvl
    IN IF cls = "Script" THEN <<>>
       ELSE IF Len(n) <= up THEN <<>> ELSE SubSeq(n, 1, Len(n) - up)

InvalidName(i) == <<Dots(i.lvl)>> \o i.m

DoImport(W, st, n, i) ==
    LET base == IF i.lvl = 0 THEN <<>> ELSE RelBase(st, n, i.lvl) IN
    IF i.lvl > 0 /\ base = <<>>
    THEN LET nm == InvalidName(i)
             s1 == IF Has(st, nm) THEN st ELSE AddPlain(st, nm, "InvalidRelativeImport", <<>>)
         IN AddEdge(s1, n, nm, InfoAttr(i, FALSE, ""), "invalid")
    ELSE LET abs == base \o i.m
             before == Len(st.stack)
             r == FindOrLoad(W, st, n, abs, TRUE)
             s1 == AddEdge(r.st, n, r.n, InfoAttr(i, FALSE, i.as), IF i.lvl > 0 THEN "rel" ELSE "import")
             \* The name list is handled when all work for loading is done.
         IN [s1 EXCEPT !.stack = SubSeq(@, 1, before)
                                 \o <<[t |-> "names", n |-> n, m |-> r.n, i |-> i]>>
                                 \o SubSeq(@, before + 1, Len(@))]

AddGlobals(st, n, names) ==
    IF Cls(st, n) \in PkgCls \cup ModCls \cup {"Script"}
    THEN [st EXCEPT !.nodes[n].gw = @ \cup names] ELSE st

\* The module that M itself imported under NAME, <<>> when there is none.
\* The toplevel package of a package is not a module that the package
\* imported: every package has an edge to the package it is in.
Reexport(st, m, nm) ==
    LET k == FirstIdx(st.out[m], LAMBDA d : (d = <<nm>> /\ ~(Cls(st, m) \in PkgCls /\ m[1] = nm))
                        \/ \E e \in st.edges[m] : e[1] = d /\ e[2][4] = nm)
    IN IF k = 0 THEN NoName ELSE st.out[m][k]

DoNames(W, st, n, m, i, ns) ==
    IF ns = <<>> THEN st
    ELSE
    LET p == Head(ns)
        nm == p.n
        known == nm \in st.nodes[m].gw
        re == IF known THEN Reexport(st, m, nm) ELSE NoName
        s1 == IF re # NoName THEN AddEdge(st, n, re, InfoAttr(i, TRUE, p.as), "reexport") ELSE st
    IN IF re # NoName \/ Cls(st, m) \in ModCls
       THEN DoNames(W, s1, n, m, i, Tail(ns))
       ELSE LET r == FindOrLoad(W, st, n, Append(m, nm), FALSE) IN
            IF Cls(r.st, r.n) = "MissingModule" /\ Cls(r.st, m) \in PkgCls /\ nm \in r.st.nodes[m].gw
            THEN \* a variable of the package
                 DoNames(W, [r.st EXCEPT !.marks = @ \cup {"var"}], n, m, i, Tail(ns))
            ELSE LET s2 == AddEdge(r.st, r.n, m, DEFAULT, "subname")
                     s3 == AddEdge(s2, n, r.n, InfoAttr(i, TRUE, p.as), "fromname")
                 IN DoNames(W, s3, n, m, i, Tail(ns))

DoNamelist(W, st, n, m, i) ==
    IF i.star
    THEN IF Cls(st, m) \in PkgCls \cup ModCls
         THEN AddGlobals(st, n, st.nodes[m].gw) ELSE st
    ELSE IF i.ns = <<>> \/ Cls(st, m) \notin PkgCls \cup ModCls \cup {"NamespacePackage", "AliasNode"}
    THEN st
    ELSE LET s1 == AddGlobals(st, n, {i.ns[k].n : k \in DOMAIN i.ns})
             tgt == IF Cls(st, m) = "AliasNode" THEN st.nodes[m].to ELSE m
         IN IF Cls(s1, tgt) \in PkgCls \cup ModCls \cup {"NamespacePackage"}
            THEN DoNames(W, s1, n, tgt, i, IF st.sched.nrev THEN Reverse(i.ns) ELSE i.ns)
            ELSE s1

-----------------------------------------------------------------------------
(* Post-processing.                                                         *)

Snapshot(st, n) == {<<e[1], e[2]>> : e \in st.edges[n]}

\* A post-processing hook is a sequence of rules [n, act, arg].
HookAct(W, st, n, q) ==
    CASE q.act = "import_module" ->
           LET r == FindOrLoad(W, st, n, q.arg, TRUE) IN AddEdge(r.st, n, r.n, DEFAULT, "hook")
      [] q.act = "import_package" -> DoImportPackage(W, st, n, q.arg)
      [] q.act = "add_module" ->
           LET r == FindOrLoad(W, st, NoName, q.arg, TRUE)
           IN Drain(W, [r.st EXCEPT !.roots = @ \cup {r.n}])

RECURSIVE HookActs(_, _, _, _)
HookActs(W, st, n, qs) ==
    IF qs = <<>> THEN st ELSE HookActs(W, HookAct(W, st, n, Head(qs)), n, Tail(qs))

RunPost(W, st, n, h) ==
    IF h = 0 THEN (IF st.builtin THEN MypycHook(W, st, n) ELSE st)
    ELSE LET s1 == [st EXCEPT !.plog = Append(@, [h |-> h, n |-> n, es |-> Snapshot(st, n)])]
             qs == SelectSeq(st.post[h], LAMBDA q : q.n = n)
         IN RunPost(W, HookActs(W, s1, n, qs), n, h - 1)

\* The builtin hook for modules compiled with mypyc.
MypycHook(W, st, n) ==
    LET nd == st.nodes[n]
        ext == nd.cls = "ExtensionModule" \/ (nd.cls \in PkgCls /\ nd.init = "ExtensionModule")
        di == FirstIdx(W.dists, LAMBDA d : d.id = nd.dist)
        \* names are listed in alphabetical order
        hi == IF di = 0 THEN 0 ELSE FirstIdx(W.dists[di].mods, LAMBDA x : StrEndsWith(Stem(x), "__mypyc"))
        helper == W.dists[di].mods[hi]
        r == Resolve(W, n)
        loc == r.loc
        src == {e \in Entries(W, loc, r.e.stem) : e.kind = "py"}
    IN IF ~ext \/ nd.dist = "" \/ di = 0 THEN st
       ELSE IF hi = 0 THEN st
       ELSE IF r.k \notin {"mod", "pkg"} \/ src = {} THEN st
       ELSE LET h == FindOrLoad(W, st, NoName, helper, TRUE)
                s1 == Drain(W, [h.st EXCEPT !.roots = @ \cup {h.n}])
                s2 == AddEdge(s1, n, h.n, DEFAULT, "mypyc")
                b == W.bodies[(CHOOSE e \in src : TRUE).body]
                infos == IF b.bad \in {"parse", "enc"} THEN <<>> ELSE AstInfos(W, b)
            IN IF infos = <<>> THEN s2 ELSE Drain(W, Schedule(s2, n, infos))

-----------------------------------------------------------------------------
(* Delayed work.                                                            *)

Step(W, st) ==
    LET w == Last(st.stack)
        s1 == [st EXCEPT !.stack = Front(@)]
    IN CASE w.t = "post"  -> RunPost(W, s1, w.n, Len(s1.post))
         [] w.t = "imp"   -> DoImport(W, s1, w.n, w.i)
         [] w.t = "names" -> DoNamelist(W, s1, w.n, w.m, w.i)
         [] w.t = "ipkg"  -> DoImportPackage(W, s1, w.n, w.p)

Drain(W, st) == IF st.stack = <<>> THEN st ELSE Drain(W, Step(W, st))

\* All modules of a package.
IsIdent(W, s) == s \in Rng(W.idents)
RECURSIVE PkgModules(_, _, _, _, _)
PkgModules(W, st, n, name, es) ==
    IF es = <<>> THEN st
    ELSE LET e == Head(es)
             sub == Append(name, e.stem)
             r == FindOrLoad(W, st, n, sub, TRUE)
             s1 == AddEdge(r.st, n, r.n, DEFAULT, "inpackage")
         IN PkgModules(W, Push(s1, [t |-> "ipkg", n |-> n, p |-> sub]), n, name, Tail(es))

RECURSIVE PkgPaths(_, _, _, _, _)
PkgPaths(W, st, n, name, locs) ==
    IF locs = <<>> THEN st
    ELSE LET es == IF IsLoc(W, Head(locs)) THEN W.locs[Head(locs)] ELSE <<>>
             \* entries are listed in the order of their file names
             mods == SelectSeq(es, LAMBDA e : e.kind \in {"so", "py", "pyc"}
                                   /\ e.stem # "__init__" /\ IsIdent(W, e.stem))
             dirs == SelectSeq(es, LAMBDA e : e.kind = "dir" /\ e.stem # "__pycache__"
                                   /\ IsIdent(W, e.stem))
             s1 == PkgModules(W, st, n, name, mods)
             s2 == [s1 EXCEPT !.stack = @ \o [i \in DOMAIN dirs |->
                        [t |-> "ipkg", n |-> n, p |-> Append(name, dirs[i].stem)]]]
         IN PkgPaths(W, s2, n, name, Tail(locs))

DoImportPackage(W, st, n, name) ==
    LET sub == [st EXCEPT !.stack = <<>>]
        r == FindOrLoad(W, sub, NoName, name, TRUE)
        d == Drain(W, r.st)
        s1 == AddEdge([d EXCEPT !.stack = st.stack], n, r.n, DEFAULT, "hook")
    IN IF Cls(s1, r.n) \notin PkgCls THEN s1
       ELSE PkgPaths(W, s1, r.n, name, s1.nodes[r.n].search)

-----------------------------------------------------------------------------
(* Operations of the API, up to the point where delayed work is processed.  *)

AddRoot(st, n) == [st EXCEPT !.roots = @ \cup {n}]

ValidName(n) == n # <<>> /\ \A i \in DOMAIN n : n[i] # ""

OpModule(W, st, name) ==
    LET r == FindOrLoad(W, st, NoName, name, TRUE) IN R(AddRoot(r.st, r.n), r.n)

ScriptAt(W, path) == {s \in Rng(W.scripts) : s.path = path}

ScriptErr(W, st, path) ==
    IF Has(st, <<path>>) THEN "ValueError"
    ELSE IF ScriptAt(W, path) = {} THEN "OSError"
    ELSE LET s == CHOOSE x \in ScriptAt(W, path) : TRUE
         IN IF W.bodies[s.body].bad # "" THEN "SyntaxError" ELSE ""

OpScript(W, st, path) ==
    LET s == CHOOSE x \in ScriptAt(W, path) : TRUE
        nd == [BlankNode EXCEPT !.cls = "Script", !.file = s.file, !.scanned = "ast", !.body = s.body]
        s1 == Schedule(AddNode(st, <<path>>, nd), <<path>>, AstInfos(W, W.bodies[s.body]))
    IN R(AddRoot(s1, <<path>>), <<path>>)

RECURSIVE OpSourceInfos(_, _, _)
OpSourceInfos(W, st, infos) ==
    IF infos = <<>> THEN st
    ELSE LET i == Head(infos) IN
         IF i.lvl > 0
         THEN LET nm == InvalidName(i)
                  s1 == IF Has(st, nm) THEN st ELSE AddPlain(st, nm, "InvalidRelativeImport", <<>>)
              IN OpSourceInfos(W, Drain(W, AddRoot(s1, nm)), Tail(infos))
         ELSE LET names == <<i.m>> \o [k \in DOMAIN i.ns |-> Append(i.m, i.ns[k].n)]
                  add(s, x) == LET r == OpModule(W, s, x) IN Drain(W, r.st)
              IN OpSourceInfos(W, FoldLeft(add, st, names), Tail(infos))

DistNamed(W, name) == FirstIdx(W.dists, LAMBDA d : d.name = name)

RECURSIVE OpDistNames(_, _, _, _)
OpDistNames(W, st, d, names) ==
    IF names = <<>> THEN st
    ELSE LET r == FindOrLoad(W, st, NoName, Head(names), TRUE)
         IN OpDistNames(W, AddEdge(r.st, d, r.n, DEFAULT, "dist"), d, Tail(names))

OpDist(W, st, k) ==
    LET d == W.dists[k]
        n == <<d.id>>
    IN IF Has(st, n) THEN R(st, n)
       ELSE LET s1 == AddRoot(AddNode(st, n, [BlankNode EXCEPT !.cls = "PyPIDistribution"]), n)
            IN R(OpDistNames(W, s1, n, d.mods), n)

OpExclude(st, names) ==
    [st EXCEPT !.lazy = [n \in DOMAIN @ \cup Rng(names) |-> IF n \in Rng(names) THEN ExcludeAct ELSE @[n]]]

OpImply(st, key, act) ==
    IF key \in DOMAIN st.lazy /\ st.lazy[key].k = "exclude" THEN st
    ELSE [st EXCEPT !.lazy = Put(@, key, act)]

\* Calls made within a hook context, before it is left.
CtxCall(W, st, c) ==
    IF ~Has(st, c.from) THEN st ELSE
    CASE c.c = "import_module" ->
           LET r == FindOrLoad(W, st, c.from, c.n, TRUE) IN AddEdge(r.st, c.from, r.n, DEFAULT, "hook")
      [] c.c = "import_package" -> DoImportPackage(W, st, c.from, c.n)
RECURSIVE CtxCalls(_, _, _)
CtxCalls(W, st, cs) == IF cs = <<>> THEN st ELSE CtxCalls(W, CtxCall(W, st, Head(cs)), Tail(cs))

-----------------------------------------------------------------------------
(* What may be executed: the packages that contain a module that is looked  *)
(* up, and what the code of those imports.                                   *)
Inits(n) == {SubSeq(n, 1, k) : k \in 1 .. Len(n)}
Containing(n) == Inits(n) \ {n}

\* The names imported when the code of N is executed
ImportedBy(W, n) ==
    LET r == Resolve(W, n) IN
    IF r.k \notin {"pkg", "mod"} \/ r.e.kind = "so" THEN {}
    ELSE IF BodyOf(W, r).bad # "" THEN {}
    ELSE LET infos == {i \in Rng(AstInfos(W, BodyOf(W, r))) : ~i.def}
             base(i) == IF i.lvl = 0 THEN <<>>
                        ELSE LET up == IF r.k = "pkg" THEN i.lvl - 1 ELSE i.lvl
                             IN IF Len(r.n) <= up THEN <<>> ELSE SubSeq(r.n, 1, Len(r.n) - up)
             ok == {i \in infos : i.lvl = 0 \/ base(i) # <<>>}
             \* a star import imports what __all__ says, there is none
         IN UNION {LET m == base(i) \o i.m IN Inits(m) \cup {Append(m, i.ns[k].n) : k \in DOMAIN i.ns} : i \in ok}

RECURSIVE ImportClosure(_, _, _)
ImportClosure(W, S, F) ==
    IF F = {} THEN S
    ELSE LET nx == UNION {ImportedBy(W, n) : n \in F} \ S IN ImportClosure(W, S \cup nx, nx)

\* Packages that change their search path in their code
Dynamic(W, n) == LET r == Resolve(W, n) IN r.k = "pkg" /\ r.e.kind = "py" /\ BodyOf(W, r).ns # ""
MayImport(W, st) ==
    LET c == UNION {Containing(n) : n \in st.looked} \cup {n \in st.looked : Dynamic(W, n)} IN ImportClosure(W, c, c)
MayExecute(W, st) == {Resolve(W, n).e.file : n \in MayImport(W, st)}

-----------------------------------------------------------------------------
(* Reachability                                                             *)
RECURSIVE Reach(_, _, _)
Reach(E, S, F) ==      \* E: name |-> names it has edges to
    IF F = {} THEN S
    ELSE LET nx == UNION {Rng(E[x]) : x \in F} \ S
         IN Reach(E, S \cup nx, nx)
Reachable(st) == Reach(st.out, st.roots, st.roots)
=============================================================================
