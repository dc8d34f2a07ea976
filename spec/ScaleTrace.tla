----------------------------- MODULE ScaleTrace -----------------------------
(* Recorded graphs of the patterns of Scale: one step per graph.            *)
EXTENDS Scale, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLE cid, done
vars == <<cid, done>>

C == Cases[cid]
Some(S) == IF S = {} THEN "" ELSE ToJson(CHOOSE x \in S : TRUE) \o " and " \o ToString(Cardinality(S) - 1) \o " more"
Cl(cl, S) == IF S = {} THEN {} ELSE {ToJson([cl |-> cl, a |-> Some(S)])}

Fails ==
    LET g == Graph(C.pattern, C.size, C.code)
        on == Rng(C.obs.nodes)
        oe == {<<e[1], e[2], <<e[3][1], e[3][2], e[3][3], e[3][4]>>>> : e \in Rng(C.obs.edges)}
    IN Cl("error", IF C.obs.error = "" THEN {} ELSE {C.obs.error})
       \cup Cl("node missing", g.nodes \ on) \cup Cl("node extra", on \ g.nodes)
       \cup Cl("edge missing", g.edges \ oe) \cup Cl("edge extra", oe \ g.edges)
       \cup Cl("number of nodes", IF Len(C.obs.nodes) = Cardinality(on) THEN {} ELSE {Len(C.obs.nodes)})
       \cup Cl("root missing", g.roots \ Rng(C.obs.roots)) \cup Cl("root extra", Rng(C.obs.roots) \ g.roots)
       \cup Cl("name missing", g.names \ Rng(C.obs.names)) \cup Cl("name extra", IF g.names = {} THEN {} ELSE Rng(C.obs.names) \ g.names)
       \cup Cl("distribution missing", g.dists \ Rng(C.obs.dists)) \cup Cl("distribution extra", Rng(C.obs.dists) \ g.dists)

Init == cid \in DOMAIN Cases /\ done = FALSE
Next ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED cid
    /\ LET f == Fails IN PrintT(ToJson([kind |-> IF f = {} THEN "DONE" ELSE "FAIL", tid |-> cid, op |-> 1, fails |-> f]))
Spec == Init /\ [][Next]_vars
=============================================================================
