------------------------------ MODULE OutTrace ------------------------------
(* Recorded reports against the graphs they are for.  One step per report.  *)
EXTENDS Output, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES cid, k
vars == <<cid, k>>

C == Cases[cid]
FailsOf(i) ==
    LET r == C.reports[i] IN
    CASE r.kind = "text" -> TextFails(C.g, C.rk, r.rows)
      [] r.kind = "html" -> HtmlFails(C.g, C.rk, r.doc)
      [] r.kind = "dot"  -> DotFails(C.g, r.doc)

Init == cid \in DOMAIN Cases /\ k = 1
Next ==
    /\ k <= Len(C.reports)
    /\ LET f == {ToJson([cl |-> x[1], a |-> x[2], b |-> x[3]]) : x \in FailsOf(k)} IN
       PrintT(ToJson([kind |-> IF f = {} THEN "DONE" ELSE "FAIL", tid |-> cid, op |-> k, fails |-> f]))
    /\ k' = k + 1 /\ UNCHANGED cid
Spec == Init /\ [][Next]_vars
=============================================================================
