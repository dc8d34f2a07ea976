-------------------------------- MODULE Runs --------------------------------
(* Several runs of the same calls on the same project.  Between runs the    *)
(* environment changes in ways that are not part of the state of a graph:   *)
(* hash seed, order of directory listings, location of the project, what    *)
(* was built before in the same process, or how the project is stored.      *)
(*                                                                          *)
(* The specification: the first run decides what is seen for every call,    *)
(* in every other run the same is seen (as far as the layout keeps it).     *)
EXTENDS Util, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES cid, run, call
vars == <<cid, run, call>>

C == Cases[cid]

\* How often something is in a sequence; only that it is for long ones, the
\* lengths are compared as well
Bag(s) == IF Len(s) > 300 THEN {<<x, 0>> : x \in Rng(s)} ELSE {<<x, Cardinality({i \in DOMAIN s : s[i] = x})>> : x \in Rng(s)}

V(what, x, y) == IF x = y THEN {} ELSE {<<what, ToJson(x), ToJson(y)>>}
S(what, x, y) == IF x = y THEN {} ELSE {<<what, ToJson(x \ y), ToJson(y \ x)>>}

-----------------------------------------------------------------------------
(* What is the same in every run of the same project.                       *)
NodeView(n) == [n |-> n.n, cls |-> n.cls, file |-> n.file, search |-> n.search, data |-> n.data, ns |-> n.ns,
                dist |-> n.dist, init |-> n.init, gw |-> Rng(n.gw), gr |-> Rng(n.gr), to |-> n.to, odd |-> Rng(n.odd)]

PostView(l) == [i \in DOMAIN l |-> [h |-> l[i].h, n |-> l[i].n, es |-> Bag(l[i].es)]]

Same(a, b) ==
    V("exception", a.exc, b.exc) \cup V("returned", a.ret, b.ret)
    \cup S("nodes", {NodeView(n) : n \in Rng(a.nodes)}, {NodeView(n) : n \in Rng(b.nodes)})
    \cup V("number of nodes", Len(a.nodes), Len(b.nodes))
    \cup S("edges", Bag(a.edges), Bag(b.edges)) \cup V("number of edges", Len(a.edges), Len(b.edges))
    \cup S("roots", Bag(a.roots), Bag(b.roots))
    \cup S("reachable", Rng(a.reach), Rng(b.reach)) \cup V("number of reachable nodes", Len(a.reach), Len(b.reach))
    \cup S("distributions", Bag(a.rdists), Bag(b.rdists))
    \cup S("all distributions", Bag(a.adists), Bag(b.adists))
    \cup V("calls of post-processing hooks", PostView(a.plog), PostView(b.plog))
    \cup V("calls of missing hooks", a.mlog, b.mlog)
    \cup S("odd", Rng(a.odd), Rng(b.odd))
    \cup UNION {S("report", Bag(a.reports[i]), Bag(b.reports[i])) : i \in DOMAIN a.reports}

-----------------------------------------------------------------------------
(* What is the same for every way to store a pure Python project: names,    *)
(* dependencies, and kinds up to source being compiled.  CODE is for a      *)
(* layout without source.                                                   *)
Kind(c, code) == IF code /\ c = "SourceModule" THEN "BytecodeModule" ELSE c
Stored(n, code) == [n |-> n.n, cls |-> Kind(n.cls, code), init |-> Kind(n.init, code),
                    gw |-> Rng(n.gw), gr |-> Rng(n.gr), to |-> n.to, odd |-> Rng(n.odd)]
\* Without source it is not known whether an import is conditional
Dependency(e, code) == IF code THEN <<e[1], e[2], e[3][3], e[3][4]>> ELSE e

Layouts(a, b, code) ==
    LET nodes(x) == {Stored(n, code) : n \in Rng(x.nodes)}
        edges(x) == {Dependency(e, code) : e \in Rng(x.edges)}
    IN V("exception", a.exc, b.exc) \cup V("returned", a.ret, b.ret)
       \cup S("nodes", nodes(a), nodes(b))
       \cup S("edges", edges(a), edges(b))
       \cup S("roots", Rng(a.roots), Rng(b.roots))
       \cup S("reachable", Rng(a.reach), Rng(b.reach))

-----------------------------------------------------------------------------
First == C.runs[1].obs[call]
This == C.runs[run].obs[call]
Fails == IF Len(C.runs[run].obs) # Len(C.runs[1].obs) THEN {<<"number of calls", "", "">>}
         ELSE IF C.mode = "same" THEN Same(First, This) ELSE Layouts(First, This, C.runs[run].code)

Init == cid \in DOMAIN Cases /\ run = 2 /\ call = 1
Verdict(f) == PrintT(ToJson([kind |-> IF f = {} THEN "DONE" ELSE "FAIL", tid |-> cid, op |-> call, run |-> run,
                             fails |-> {ToJson([cl |-> x[1], a |-> x[2], b |-> x[3]]) : x \in f}]))
Next ==
    /\ run <= Len(C.runs)
    /\ LET f == Fails IN
       IF f # {} THEN Verdict(f) /\ run' = Len(C.runs) + 1 /\ UNCHANGED <<cid, call>>
       ELSE IF call < Len(C.runs[1].obs) THEN call' = call + 1 /\ UNCHANGED <<cid, run>>
       ELSE /\ IF run < Len(C.runs) THEN TRUE ELSE Verdict({})
            /\ run' = run + 1 /\ call' = 1 /\ UNCHANGED cid
Spec == Init /\ [][Next]_vars
=============================================================================
