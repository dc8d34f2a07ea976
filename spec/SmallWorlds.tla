----------------------------- MODULE SmallWorlds -----------------------------
(* The specification, checked on all small worlds: every scenario of a       *)
(* family is executed, and the properties are invariants of the graph that   *)
(* is there when a call returns.                                             *)
EXTENDS Declared, Json, IOUtils

Family == IOEnv.FAMILY
\* A part of a family: every STEP-th scenario
Every == atoi(IOEnv.STEP)
From0 == atoi(IOEnv.OFFSET)
Emit == IOEnv.EMIT = "1"

Count == (Size(Family) - From0 + Every - 1) \div Every
\* TLC does not know that these are constants: there are recursive operators
AllScns == [i \in 1 .. Count |-> Scenario(Family, Digits(From0 + (i - 1) * Every, Dim(Family)))]
ASSUME TLCSet(1, TLCEval(AllScns))
Scns == TLCGet(1)
ASSUME TLCSet(2, TLCEval([i \in 1 .. Count |-> MkWorld(Scns[i])]))
Ws == TLCGet(2)

\* What the text of every module says
ASSUME TLCSet(3, TLCEval([i \in 1 .. Count |-> [k \in DOMAIN Ws[i].bodies |-> <<Imports(Ws[i].bodies[k], FALSE), Imports(Ws[i].bodies[k], TRUE)>>]]))
Texts == TLCGet(3)

\* c scenario, o call, ph where in it, st graph, ret returned node;
\* and what was asked for: ex excluded names, cf configured actions, born how
\* many hooks there were when a node was added, asked modules that were added,
\* whole packages that were imported as a whole.
VARIABLES c, o, ph, st, ret, ex, cf, born, asked, whole
vars == <<c, o, ph, st, ret, ex, cf, born, asked, whole>>

W == Ws[c]
Ops == Scns[c].ops

Init ==
    /\ c \in 1 .. Count /\ o = 1 /\ ph = "init" /\ ret = NoName
    /\ st = [EmptyState([rev |-> FALSE, nrev |-> FALSE, perm |-> 0]) EXCEPT !.builtin = Scns[c].builtin]
    /\ ex = {<<"__main__">>} /\ cf = EmptyFn /\ born = EmptyFn /\ asked = {} /\ whole = {}

Born(s) == [n \in DOMAIN s.nodes |-> IF n \in DOMAIN born THEN born[n] ELSE [post |-> Len(s.post), miss |-> Len(s.miss)]]

NewNames(op) == IF op.op = "exclude" /\ op.form # "str" THEN Rng(op.names) ELSE IF op.op = "imply" THEN {it.n : it \in {x \in Rng(op.items) : x.k = "exclude"}} ELSE {}
Fresh(S) == {n \in S : ~Has(st, n)}
Conf(op) ==
    IF op.op # "imply" THEN [n \in DOMAIN cf \ NewNames(op) |-> cf[n]]
    ELSE LET its == {x \in Rng(op.items) : x.k # "exclude" /\ ~Has(st, x.n) /\ x.n \notin ex}
         IN [n \in (DOMAIN cf \ NewNames(op)) \cup {x.n : x \in its} |->
                IF \E x \in its : x.n = n THEN CHOOSE x \in its : x.n = n ELSE cf[n]]

\* What a call asks for
Asks(op, r) ==
    (IF r # NoName THEN {r} ELSE {})

Finish(s, err, r) ==
    /\ ph' = (IF o = Len(Ops) THEN "done" ELSE "begin")
    /\ o' = (IF o = Len(Ops) THEN o ELSE o + 1)
    /\ ret' = NoName
    /\ asked' = asked \cup (IF err = "" THEN Asks(Ops[o], r) ELSE {})
    /\ whole' = whole \cup (IF Ops[o].op # "ctx" THEN {} ELSE {x \in {y \in Rng(Ops[o].calls) : y.c = "import_package"} : Has(s, x.from) /\ x.from \in DOMAIN born})

Call ==
    /\ ph = "begin"
    /\ IF o = 1 /\ Emit THEN PrintT(ToJson([scn |-> Scns[c], world |-> W, i |-> c])) ELSE TRUE
    /\ LET r == Begin(W, st, Ops[o])
       IN /\ st' = r.st /\ UNCHANGED c
          /\ ex' = ex \cup Fresh(NewNames(Ops[o]))
          /\ cf' = Conf(Ops[o])
          /\ born' = Born(r.st)
          /\ IF r.err # "" \/ r.st.stack = <<>> THEN Finish(r.st, r.err, r.n)
             ELSE ph' = "work" /\ ret' = r.n /\ UNCHANGED <<o, asked, whole>>
Work ==
    /\ ph = "work"
    /\ LET s == Step(W, st)
       IN /\ st' = s /\ born' = Born(s) /\ UNCHANGED <<c, ex, cf>>
          /\ IF s.stack = <<>> THEN Finish(s, "", ret) ELSE UNCHANGED <<o, ph, ret, asked, whole>>
Go == ph = "init" /\ ph' = "begin" /\ UNCHANGED <<c, o, st, ret, ex, cf, born, asked, whole>>
Next == Go \/ Call \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The log of names that were looked up makes no difference
View == <<c, o, ph, Len(st.stack), Cardinality(DOMAIN st.nodes), st>>

-----------------------------------------------------------------------------
(* Properties.                                                              *)
AtRest == ph \in {"begin", "done"}
Ns == DOMAIN st.nodes
Node(n) == st.nodes[n]
CodeNodes == {n \in Ns : Node(n).scanned # ""}
TextOf(n) == Texts[c][Node(n).body][IF Node(n).scanned = "code" THEN 2 ELSE 1]

\* Hooks that answer with a module of another name, or make modules appear
OtherNames == \E op \in Rng(Ops) : op.op = "misshook" /\ \E q \in Rng(op.rules) : q.ret = "module"
Answered == {q.n : q \in UNION {Rng(op.rules) : op \in {x \in Rng(Ops) : x.op = "misshook"}}}

EdgesFrom(n, why) == {e \in st.edges[n] : e[3] \in why}
ImportWhy == {"import", "rel", "invalid"}

\* C01: every import in the code of a module in the graph has an edge.
C01 == AtRest /\ ~OtherNames =>
    \A n \in CodeNodes : \A i \in TextOf(n) :
        LET t == TargetName(Cls(st, n), n, i) IN Has(st, t) /\ \E e \in st.edges[n] : e[1] = t

\* C02: an edge for an import is one in the code, and a node is there because
\* something leads to it.
C02 == AtRest /\ ~OtherNames =>
    /\ \A n \in Ns : \A e \in EdgesFrom(n, ImportWhy) : n \in CodeNodes /\ \E i \in TextOf(n) : TargetName(Cls(st, n), n, i) = e[1]
    /\ \A n \in Ns : \A e \in EdgesFrom(n, {"fromname"}) : n \in CodeNodes /\ \E i \in TextOf(n) : \E x \in i.ns : x.n = Stem(e[1])
    /\ \A n \in Ns \ st.roots : (\E m \in Ns : n \in Rng(st.out[m])) \/ Cls(st, n) = "MissingModule"
    /\ (\A op \in Rng(Ops) : op.op \notin {"posthook", "misshook", "imply", "ctx", "dist"}) =>
          \A n \in Ns \ Reachable(st) : Cls(st, n) = "MissingModule"
                 \/ \E a \in Rng(W.sysalias) : n = a.n \/ StrPrefix(n, a.to) \/ StrPrefix(n, a.n)

\* C03, C33: a module is the first one on the search path of its package, a
\* namespace package has all directories and no module is on that path.
SearchOf(n) == IF Len(n) = 1 THEN W.path ELSE Node(ParentOf(n)).search
Found == {n \in Ns : Cls(st, n) \in ({"SourceModule", "BytecodeModule", "ExtensionModule", "InvalidModule", "Package", "NamespacePackage"}) /\ n \notin Answered
                     /\ (Len(n) = 1 \/ (Has(st, ParentOf(n)) /\ Cls(st, ParentOf(n)) \in {"Package", "NamespacePackage"})) /\ ~(n[1] \in {"_m", "_p", "_x"})}
C03 == AtRest =>
    \A n \in Found :
       LET s == SearchOf(n)
           k == FirstIdx(s, LAMBDA l : Provides(W, l, Stem(n)))
       IN IF Cls(st, n) = "NamespacePackage"
          THEN k = 0 /\ Node(n).search = SelectSeq([i \in DOMAIN s |-> Join(s[i], Stem(n))], LAMBDA l : IsLoc(W, l))
          ELSE /\ k # 0
               /\ IF Cls(st, n) = "Package" THEN Node(n).file = Join(s[k], Stem(n)) /\ HasInit(W, Node(n).file) /\ Node(n).search[1] = Node(n).file
                  ELSE \/ \E e \in Rng(W.locs[s[k]]) : e.stem = Stem(n) /\ e.file = Node(n).file
                       \/ \E e \in Rng(W.locs[Join(s[k], Stem(n))]) : e.stem = "__init__" /\ e.file = Node(n).file /\ Cls(st, n) = "InvalidModule"
\* and a missing module is nowhere
C03b == AtRest =>
    \A n \in {x \in Ns : Cls(st, x) = "MissingModule" /\ x \notin Answered} :
       Len(n) > 1 => Has(st, ParentOf(n)) /\
           (Cls(st, ParentOf(n)) \in {"Package", "NamespacePackage"} /\ Raises(W, Resolve(W, ParentOf(n))) = FALSE =>
                \A l \in Rng(SearchOf(n)) : ~Provides(W, l, Stem(n)) /\ ~IsLoc(W, Join(l, Stem(n))))
C33 == C03 /\ C03b

\* C04: a node below a package is linked to it, unconditionally; what is below
\* something that is not there is not there, what is below something that is
\* left out is left out.
Dotted(n) == Len(n) > 1 /\ ~StrStartsWith(n[1], ".")
C04 == AtRest =>
    \A n \in {x \in Ns : Dotted(x)} :
        /\ Has(st, ParentOf(n))
        /\ (\E e \in st.edges[n] : e[1] = ParentOf(n) /\ e[2] = DEFAULT) \/ Cls(st, n) = "MissingModule"
        /\ Cls(st, ParentOf(n)) = "MissingModule" /\ n \notin Answered => Cls(st, n) = "MissingModule"
        /\ Cls(st, ParentOf(n)) = "ExcludedModule" => Cls(st, n) = "ExcludedModule"

\* C05: where relative imports lead.
C05 == AtRest /\ ~OtherNames =>
    \A n \in CodeNodes : \A i \in {x \in TextOf(n) : x.lvl > 0} :
        LET pkg == PackageOf(Cls(st, n), n)
            t == TargetName(Cls(st, n), n, i)
        IN IF Len(pkg) < i.lvl THEN Cls(st, t) = "InvalidRelativeImport" ELSE SubSeq(t, 1, Len(pkg) - i.lvl + 1) = SubSeq(pkg, 1, Len(pkg) - i.lvl + 1) /\ Cls(st, t) # "InvalidRelativeImport"

\* C06: the attributes of the edges of imports.
C06 == AtRest /\ ~OtherNames =>
    \A n \in CodeNodes :
       /\ {<<e[1], e[2]>> : e \in EdgesFrom(n, ImportWhy)} = {<<TargetName(Cls(st, n), n, i), <<i.opt, i.glob, FALSE, i.as>>>> : i \in {x \in TextOf(n) : TRUE}}
       /\ \A e \in EdgesFrom(n, {"fromname", "reexport"}) : e[2][3] /\ \E i \in TextOf(n) : \E x \in i.ns : e[2] = <<i.opt, i.glob, TRUE, x.as>>

\* C07: names in from-imports.
C07 == AtRest /\ ~OtherNames =>
    \A n \in CodeNodes : \A i \in {x \in TextOf(n) : ~x.star} :
        LET t0 == TargetName(Cls(st, n), n, i)
            t == IF Cls(st, t0) = "AliasNode" THEN Node(t0).to ELSE t0
        IN Has(st, t) =>
           \A x \in i.ns :
              LET sub == Append(t, x.n)
                  edge(d) == \E e \in st.edges[n] : e[1] = d /\ e[2] = <<i.opt, i.glob, TRUE, x.as>>
                  some == \E e \in st.edges[n] : e[2] = <<i.opt, i.glob, TRUE, x.as>>
              IN CASE Cls(st, t) \in {"Package", "NamespacePackage", "FrozenPackage"} ->
                        IF x.n \in Node(t).gw
                        THEN \* a variable: what was imported under that name, a submodule, or nothing else
                             Has(st, sub) /\ Cls(st, sub) # "MissingModule" => some
                        ELSE edge(sub)
                   [] Cls(st, t) \in ModCls ->
                        /\ ~Has(st, sub) \/ Cls(st, sub) \in {"MissingModule", "AliasNode", "ExcludedModule", "VirtualNode"} \/ sub \in DOMAIN cf
                        /\ (\E e \in st.edges[n] : e[2][3] /\ e[1] = <<x.n>>) => (x.n \in UNION {{y.n : y \in j.ns} : j \in TextOf(n)})
                   [] OTHER -> TRUE

\* C08: what is excluded.
C08 == AtRest =>
    \A n \in ex \cap Ns :
        /\ Cls(st, n) = "ExcludedModule"
        \* hooks can link it to something
        /\ \A e \in st.edges[n] : e[1] = ParentOf(n) \/ e[3] = "hook"
        /\ \A m \in Ns : StrPrefix(n, m) => Cls(st, m) = "ExcludedModule" /\ \A e \in st.edges[m] : e[1] = ParentOf(m) \/ e[3] = "hook"
\* and only that
C08b == AtRest => \A n \in Ns : Cls(st, n) = "ExcludedModule" => \E x \in ex : x = n \/ StrPrefix(x, n)

\* C09: implied actions.
Reached(n) == Len(n) = 1 \/ Cls(st, ParentOf(n)) \notin {"MissingModule", "ExcludedModule"}
C09 == AtRest =>
    \A n \in DOMAIN cf \cap Ns : Reached(n) /\ n \notin ex =>
        LET it == cf[n] IN
        CASE it.k = "refs" -> \A x \in Rng(it.refs) : (~OtherNames => Has(st, x)) /\ (Has(st, x) => \E e \in st.edges[n] : e[1] = x /\ e[2] = DEFAULT)
          [] OTHER -> /\ Cls(st, n) = (IF it.k = "alias" THEN "AliasNode" ELSE "VirtualNode")
                      /\ Node(n).to = it.to
                      /\ (~OtherNames => Has(st, it.to) /\ \E e \in st.edges[n] : e[1] = it.to /\ e[2] = DEFAULT)
                      /\ \A e \in st.edges[n] : e[2] = DEFAULT

\* C10: every hook sees every node once, after its imports are in the graph,
\* hooks added last first.
Unhooked == {n \in Ns : n \in Answered \/ Cls(st, n) = "PyPIDistribution" \/ n[1] \in {"_m", "_p", "_x"}}
C10 == AtRest =>
    /\ \A n \in Ns \ Unhooked : \A h \in DOMAIN st.post :
          LET k == {i \in DOMAIN st.plog : st.plog[i].n = n /\ st.plog[i].h = h} IN Cardinality(k) = (IF h <= born[n].post THEN 1 ELSE 0)
    /\ \A i, j \in DOMAIN st.plog : i < j /\ st.plog[i].n = st.plog[j].n => st.plog[i].h > st.plog[j].h
    /\ \A i \in DOMAIN st.plog :
          LET n == st.plog[i].n IN \A e \in EdgesFrom(n, ImportWhy) : <<e[1], e[2]>> \in st.plog[i].es

\* C11: a module is missing when it is not there and no hook provides it;
\* every hook is asked once, those added last first.
Answers(h, n) == \E q \in Rng(st.miss[h]) : q.n = n /\ q.ret # "none"
C11 == AtRest =>
    /\ \A n \in Ns : Cls(st, n) = "MissingModule" =>
          \A h \in 1 .. born[n].miss : ~Answers(h, n) /\ Cardinality({i \in DOMAIN st.mlog : st.mlog[i].n = n /\ st.mlog[i].h = h}) = 1
    /\ \A i \in DOMAIN st.mlog : \A h \in DOMAIN st.miss :
          LET n == st.mlog[i].n IN
          h > st.mlog[i].h /\ Has(st, n) /\ h <= born[n].miss => ~Answers(h, n)
    /\ \A i \in DOMAIN st.mlog : LET n == st.mlog[i].n IN
          Resolve(W, n).k = "none" \/ (Len(n) > 1 /\ (~Has(st, ParentOf(n)) \/ Cls(st, ParentOf(n)) \in {"MissingModule", "AliasNode", "VirtualNode"}))

\* C12: nothing is ever taken away or replaced, and asking again changes nothing.
Grows == \A n \in Ns :
            /\ n \in DOMAIN st'.nodes
            /\ st.edges[n] \subseteq st'.edges[n]
            /\ LET a == Node(n) b == st'.nodes[n] IN a.gw \subseteq b.gw /\ [a EXCEPT !.gw = {}] = [b EXCEPT !.gw = {}]
Monotone == [][Grows /\ st.roots \subseteq st'.roots]_vars
Again(n) == LET s == OpModule(W, st, n).st IN s.nodes = st.nodes /\ s.edges = st.edges /\ s.roots = st.roots /\ s.stack = <<>> /\ s.plog = st.plog /\ s.mlog = st.mlog
C12 == AtRest =>
    /\ asked \subseteq st.roots
    /\ \A n \in asked : ValidName(n) /\ Cls(st, n) \notin {"Script", "PyPIDistribution"} => Again(n)
    /\ (\A op \in Rng(Ops) : op.op \notin {"posthook", "misshook", "source"} ) /\ W.dists = <<>> => st.roots = asked

\* C15: what is in source is in compiled code, up to what is not known there.
Start == o = 1 /\ ph = "begin"
Names(is) == {[lvl |-> i.lvl, m |-> i.m, def |-> i.def, n |-> x.n] : i \in is, x \in {[n |-> ""]}}
FromPairs(is) == UNION {{[lvl |-> i.lvl, m |-> i.m, def |-> i.def, n |-> p.n] : p \in Rng(i.ns)} : i \in is}
C15 == Start =>
    \A k \in DOMAIN W.bodies :
        LET a == Rng(AstInfos(W, W.bodies[k]))
            b == Rng(BytecodeInfos(W, W.bodies[k]))
            stars(is) == {[lvl |-> i.lvl, m |-> i.m] : i \in {x \in is : x.star}}
        IN /\ Names(a) = Names(b)
           \* star imports have no other names, in compiled code the star is one of them
           /\ {p \in FromPairs(a) : p.n # "*"} = {p \in FromPairs(b) : p.n # "*"}
           /\ stars(a) = stars(b)
\* Both scanners say what is in the text.
C06b == Start =>
    \A k \in DOMAIN W.bodies : \A compiled \in BOOLEAN :
        LET is == Rng(IF compiled THEN BytecodeInfos(W, W.bodies[k]) ELSE AstInfos(W, W.bodies[k]))
        IN {<<i.lvl, i.m, i.as, Optional(i), IsGlobal(i), i.star>> : i \in is} = {<<i.lvl, i.m, i.as, i.opt, i.glob, i.star>> : i \in Texts[c][k][IF compiled THEN 2 ELSE 1]}
\* C16: names.
C16 == Start => \A k \in DOMAIN W.bodies : GlobalsWritten(W.bodies[k]) = DeclaredWritten(W.bodies[k]) /\ GlobalsRead(W.bodies[k]) = DeclaredRead(W.bodies[k])

\* C17: broken code is broken code.
C17 == AtRest =>
    \A n \in Ns :
       /\ (Cls(st, n) = "InvalidModule" \/ Node(n).init = "InvalidModule") <=> (Node(n).body # 0 /\ Cls(st, n) # "Script" /\ W.bodies[Node(n).body].bad # "")
       /\ Cls(st, n) = "InvalidModule" => Node(n).gw = {} /\ Node(n).gr = {}

\* C18: a call that is refused changes nothing.
Refused(op) ==
    \/ op.op = "module" /\ ~ValidName(op.n)
    \/ op.op = "script" /\ ScriptErr(W, st, op.path) # ""
    \/ op.op = "source" /\ W.bodies[op.body].bad # ""
    \/ op.op = "dist" /\ DistNamed(W, op.name) = 0
    \/ op.op = "exclude" /\ op.form = "str"
C18 == [][ph = "begin" /\ Refused(Ops[o]) => st' = st]_vars

\* C21: distributions.
C21 == AtRest =>
    \A n \in Ns : Cls(st, n) = "PyPIDistribution" =>
        /\ n \in st.roots
        /\ \E k \in DOMAIN W.dists : W.dists[k].id = n[1] /\ {e[1] : e \in st.edges[n]} = Rng(W.dists[k].mods)
        /\ \A e \in st.edges[n] : e[2] = DEFAULT
\* C22: a package as a whole.
C22 == AtRest =>
    \A x \in whole : Has(st, x.n) =>
        /\ \E e \in st.edges[x.from] : e[1] = x.n /\ e[2] = DEFAULT
        /\ Cls(st, x.n) = "Package" /\ Node(x.n).init # "InvalidModule" => \A m \in UNION {ModulesIn(W, x.n, l) : l \in Rng(Node(x.n).search)} : Has(st, m)

\* C23: calls of hooks.
C23 == AtRest =>
    /\ \A op \in {Ops[k] : k \in 1 .. (IF ph = "done" THEN o ELSE o - 1)} : op.op = "ctx" =>
          \A x \in Rng(op.calls) : x.c = "import_module" /\ x.from \in DOMAIN born /\ Has(st, x.n) /\ (\E e \in st.edges[x.from] : e[3] = "hook" /\ e[1] = x.n) =>
               \E e \in st.edges[x.from] : e[1] = x.n /\ e[2] = DEFAULT
    /\ st.stack = <<>>

\* C27: data files.
C27 == AtRest => \A n \in Ns : Cls(st, n) = "Package" => Node(n).data = HasDataIn(W, Node(n).file)

\* C29: the extension of a SWIG module.
C29 == AtRest =>
    \A n \in Ns : Len(n) = 1 /\ Cls(st, n) = "ExtensionModule" =>
        \/ \E l \in Rng(W.path) : \E e \in Rng(W.locs[l]) : e.file = Node(n).file
        \/ st.builtin /\ \E m \in Ns : Has(st, m) /\ n[1] = "_" \o Stem(m) /\ SwigHelper \in Node(m).gw /\ \E x \in Rng(st.out[m]) : x = n \/ StrPrefix(n, x)

\* C31: dependencies of source are roots.
C31 == AtRest =>
    \A op \in {Ops[k] : k \in 1 .. (IF ph = "done" THEN o ELSE o - 1)} : op.op = "source" /\ ~OtherNames =>
        \A i \in Texts[c][op.body][1] :
            IF i.lvl > 0 THEN (<<Dots(i.lvl)>> \o i.m) \in st.roots
            ELSE i.m \in st.roots /\ \A x \in i.ns : x.n = "*" \/ Append(i.m, x.n) \in st.roots

\* C34: modules that have another name as well.
C34 == AtRest =>
    \A a \in Rng(W.sysalias) : Has(st, a.n) /\ a.n \notin ex /\ Reached(a.n) =>
        Cls(st, a.n) = "AliasNode" /\ Node(a.n).to = a.to /\ Has(st, a.to) /\ \E e \in st.edges[a.n] : e[1] = a.to /\ e[2] = DEFAULT

\* Building a graph comes to an end.
Ends == <>(ph = "done")

-----------------------------------------------------------------------------
(* The order in which work is done does not matter.                         *)
RECURSIVE Whole(_, _)
Whole(s, ops) == IF ops = <<>> THEN s ELSE Whole(Drain(W, Begin(W, s, Head(ops)).st), Tail(ops))
WithSched(x) == Whole([EmptyState(x) EXCEPT !.builtin = Scns[c].builtin], Ops)
Core(s) == [nodes |-> [n \in DOMAIN s.nodes |-> [s.nodes[n] EXCEPT !.gw = {}]], edges |-> EdgesOf(s), roots |-> s.roots]
Confluent == ph = "done" =>
    /\ Core(WithSched([rev |-> TRUE, nrev |-> TRUE, perm |-> 0])) = Core(st)
    /\ Core(WithSched([rev |-> FALSE, nrev |-> TRUE, perm |-> 3])) = Core(st)
=============================================================================
