------------------------------- MODULE MGTrace -------------------------------
(* Validation of recorded executions: every trace of a batch is a sequence  *)
(* of API calls on a world with what was observed after each of them.  The  *)
(* calls are replayed on the specification, one unit of delayed work per    *)
(* step, and compared.  The verdict is total: a mismatch names the clauses  *)
(* that fail and ends the trace.                                            *)
EXTENDS Calls, Json, IOUtils

Batch == JsonDeserialize(IOEnv.BATCH)
SchedName == IOEnv.SCHED
\* Are calls of hooks compared in the order in which they were made?
InOrder == IOEnv.ORDERED = "1"
Sched == [rev |-> SchedName \in {"rev", "both"}, nrev |-> SchedName \in {"nrev", "both"},
          perm |-> CASE SchedName = "perm2" -> 2 [] SchedName = "perm3" -> 3 [] SchedName = "perm5" -> 5 [] OTHER -> 0]

VARIABLES tid, o, ph, st, ret
vars == <<tid, o, ph, st, ret>>

T == Batch[tid]
W == T.world

Init ==
    /\ tid \in DOMAIN Batch
    /\ o = 1 /\ ph = "begin" /\ ret = NoName
    /\ st = [EmptyState(Sched) EXCEPT !.builtin = Batch[tid].builtin]

-----------------------------------------------------------------------------
(* Comparison with the observation.                                         *)
NodeFields == {"cls", "file", "search", "data", "ns", "dist", "init", "to"}
SetFields == {"gw", "gr"}

ObsEdges(ob) == {<<e[1], e[2], <<e[3][1], e[3][2], e[3][3], e[3][4]>>>> : e \in Rng(ob.edges)}
Vocab == Rng(T.vocab)

\* A failing clause, as text: the values compared are of all kinds.
F(cl, a, b, x, y) == ToJson([cl |-> cl, a |-> a, b |-> b, exp |-> x, obs |-> y])

WhyOf(s, e) == {x[3] : x \in {y \in s.edges[e[1]] : y[1] = e[2] /\ y[2] = e[3]}}
WhyOf2(s, e) == IF ~Has(s, e[1]) THEN {} ELSE {x[3] : x \in {y \in s.edges[e[1]] : y[1] = e[2]}}

DistsOf(s, ns) == {s.nodes[n].dist : n \in ns} \ {""}

\* What a has from the first difference with b
Diff(a, b) ==
    LET k == {i \in DOMAIN a : i \notin DOMAIN b \/ a[i] # b[i]} IN
    IF k = {} THEN <<>> ELSE SubSeq(a, Min(k), IF Min(k) + 2 < Len(a) THEN Min(k) + 2 ELSE Len(a))

\* Reasons for edges that are in the code of a module
OwnCode == {"import", "rel", "invalid", "fromname", "reexport", "parent"}

\* The same calls of hooks: for every name the same hooks in the same order
SameCalls(a, b) ==
    /\ Len(a) = Len(b) /\ Rng(a) = Rng(b)
    /\ \A n \in {x.n : x \in Rng(a)} : LET of(l) == SelectSeq(l, LAMBDA x : x.n = n) IN of(a) = of(b)

Mismatches(s, rn, ob) ==
    LET on == {x.n : x \in Rng(ob.nodes)}
        nodeOf(n) == CHOOSE x \in Rng(ob.nodes) : x.n = n
        en == DOMAIN s.nodes
        oe == ObsEdges(ob)
        se == EdgesOf(s)
        reach == Reachable(s)
        mls(logs) == [i \in DOMAIN logs |-> [h |-> logs[i].h, imp |-> logs[i].imp, n |-> logs[i].n]]
        seqs(logs) == [i \in DOMAIN logs |-> [h |-> logs[i].h, n |-> logs[i].n]]
    IN  {F("node-missing", n, Cls(s, n), "", "") : n \in en \ on}
   \cup {F("node-extra", n, nodeOf(n).cls, "", "") : n \in on \ en}
   \cup UNION {LET x == nodeOf(n) IN
               {F("node-" \o f, n, s.nodes[n].cls, s.nodes[n][f], x[f]) :
                   f \in {f \in NodeFields : x[f] # s.nodes[n][f]}}
               \cup {F("node-" \o f, n, s.nodes[n].cls, s.nodes[n][f] \cap Vocab, Rng(x[f])) :
                   f \in {f \in SetFields : Rng(x[f]) # s.nodes[n][f] \cap Vocab}}
               \cup {F("node-odd", n, s.nodes[n].cls, "", x.odd) : q \in Rng(x.odd)}
               : n \in en \cap on}
   \cup {F("edge-missing", e[1], e[2], e[3], WhyOf(s, e)) : e \in se \ oe}
   \cup {F("edge-extra", e[1], e[2], e[3], WhyOf2(s, e)) : e \in oe \ se}
   \cup {F("root-missing", n, "", "", "") : n \in s.roots \ Rng(ob.roots)}
   \cup {F("root-extra", n, "", "", "") : n \in Rng(ob.roots) \ s.roots}
   \cup {F("ret", "", "", rn, ob.ret) : q \in {q \in {1} : rn # NoName /\ rn # ob.ret}}
   \cup {F("reach", "", "", reach, Rng(ob.reach)) : q \in {q \in {1} : reach # Rng(ob.reach) \/ Len(ob.reach) # Cardinality(reach)}}
   \cup {F("rdists", "", "", DistsOf(s, reach), ob.rdists) : q \in {q \in {1} :
            DistsOf(s, reach) # Rng(ob.rdists) \/ Len(ob.rdists) # Cardinality(Rng(ob.rdists))}}
   \cup {F("adists", "", "", DistsOf(s, en), ob.adists) : q \in {q \in {1} :
            DistsOf(s, en) # Rng(ob.adists) \/ Len(ob.adists) # Cardinality(Rng(ob.adists))}}
   \cup {F("odd", "", "", "", x) : x \in Rng(ob.odd)}
   \cup {F("posthook-calls", "", "", seqs(s.plog), seqs(ob.plog)) : q \in {q \in {1} : ~SameCalls(seqs(s.plog), seqs(ob.plog))}}
   \cup {F("misshook-calls", "", "", seqs(s.mlog), seqs(ob.mlog)) : q \in {q \in {1} : ~SameCalls(seqs(s.mlog), seqs(ob.mlog))}}
   \cup IF ~(T.ordered /\ InOrder)
      THEN {F("misshook-imps", "", "", Rng(s.mlog), Rng(mls(ob.mlog))) : q \in {q \in {1} : Rng(s.mlog) # Rng(mls(ob.mlog))}}
           \cup UNION {LET k == FirstIdx(ob.plog, LAMBDA y : y.h = x.h /\ y.n = x.n) IN
                       {F("posthook-early", x.n, e[1], e[2], x.h) :
                          e \in {e \in x.es : k # 0 /\ (\E y \in s.edges[x.n] : y[1] = e[1] /\ y[2] = e[2] /\ y[3] \in OwnCode)
                                               /\ e \notin {<<y[1], <<y[2][1], y[2][2], y[2][3], y[2][4]>>>> : y \in Rng(ob.plog[k].es)}}}
                       : x \in Rng(s.plog)}
      ELSE
      {F("posthook-order", "", "", Diff(seqs(s.plog), seqs(ob.plog)), Diff(seqs(ob.plog), seqs(s.plog))) : q \in {q \in {1} : seqs(s.plog) # seqs(ob.plog)}}
   \cup {F("posthook-graph", ob.plog[i].n, "", s.plog[i].es, ob.plog[i].es) :
            i \in {i \in DOMAIN ob.plog \cap DOMAIN s.plog : s.plog[i].n = ob.plog[i].n /\ s.plog[i].es # {<<y[1], <<y[2][1], y[2][2], y[2][3], y[2][4]>>>> : y \in Rng(ob.plog[i].es)}}}
   \cup {F("misshook-order", "", "", Diff(s.mlog, mls(ob.mlog)), Diff(mls(ob.mlog), s.mlog)) : q \in {q \in {1} : s.mlog # mls(ob.mlog)}}

\* What was executed, imported or changed besides building the graph.
Effects(s) ==
    IF "effects" \notin DOMAIN T \/ o # Len(T.ops) THEN {}
    ELSE {F("executed", f, "", "", "") : f \in Rng(T.effects.executed) \ MayExecute(W, s)}
         \cup {F("imported", n, "", "", "") : n \in Rng(T.effects.new) \ MayImport(W, s)}
         \cup {F("disturbed", x, "", "", "") : x \in Rng(T.effects.odd)}

Verdict(r, ob) ==
    IF r.err # ob.exc THEN {F("exc", "", "", r.err, ob.exc \o " " \o ob.msg)}
    ELSE Mismatches(r.st, r.n, ob) \cup Effects(r.st)

Report(kind, fails) == PrintT(ToJson([kind |-> kind, tid |-> tid, op |-> o, fails |-> fails]))

-----------------------------------------------------------------------------
Ob == T.obs[o]

Compare(r) ==
    LET v == Verdict(r, Ob) IN
    IF v # {}
    THEN /\ Report("FAIL", v)
         /\ ph' = "done" /\ st' = r.st /\ UNCHANGED <<tid, o, ret>>
    ELSE IF o = Len(T.ops)
    THEN /\ Report("DONE", {})
         /\ ph' = "done" /\ st' = r.st /\ UNCHANGED <<tid, o, ret>>
    ELSE /\ ph' = "begin" /\ o' = o + 1 /\ st' = r.st /\ ret' = NoName /\ UNCHANGED tid

Call ==
    /\ ph = "begin"
    /\ LET r == Begin(W, st, T.ops[o]) IN
       IF r.err # "" \/ r.st.stack = <<>> THEN Compare(r)
       ELSE /\ st' = r.st /\ ret' = r.n /\ ph' = "work" /\ UNCHANGED <<tid, o>>

Work ==
    /\ ph = "work" /\ st.stack # <<>>
    /\ LET s1 == Step(W, st) IN
       IF s1.stack # <<>> THEN st' = s1 /\ UNCHANGED <<tid, o, ph, ret>>
       ELSE Compare(Res(s1, ret, ""))

Next == Call \/ Work
Spec == Init /\ [][Next]_vars
View == <<tid, o, ph, Len(st.stack), st>>
=============================================================================
