------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the command line against their meaning, and against the *)
(* graph that the same calls of the API give.                               *)
EXTENDS Cli, Output, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES cid, k
vars == <<cid, k>>
C == Cases[cid]

ReportFails(c, doc) ==
    IF c.format = "html" THEN HtmlFails(C.api.g, C.api.rk, doc) ELSE DotFails(C.api.g, doc)

Say(cl, a, b) == <<cl, a, ToString(b)>>

Verdict ==
    LET c == Meaning(C.argv)
        failed(why) ==
            {Say("exit-ok", why, C.exit) : q \in {q \in {1} : C.exit = 0}}
            \cup {Say("no-message", why, C.exit) : q \in {q \in {1} : ~C.message}}
            \cup {Say("output-on-error", why, C.exit) : q \in {q \in {1} : C.stdout # "empty"}}
        inFile == c.out # ""
    IN {Say("sys-path", "", C.path) : q \in {q \in {1} : ~C.restored}}
       \cup
       IF c.help THEN {Say("help", "", C.exit) : q \in {q \in {1} : C.exit # 0 \/ C.stdout = "empty"}}
       ELSE IF c.err THEN failed("usage") \cup {Say("file-on-error", "", C.argv) : q \in {q \in {1} : C.file # "none"}}
       ELSE IF C.api.args # c THEN {Say("harness", "other calls were made", c)}
       ELSE IF C.api.err THEN failed("graph")
       ELSE IF inFile /\ ~C.writable THEN failed("file")
       ELSE {Say("exit", "", C.exit) : q \in {q \in {1} : C.exit # 0}}
            \cup {Say("unexpected-message", "", C.exit) : q \in {q \in {1} : C.message}}
            \cup {Say("stdout", C.stdout, "") : q \in {q \in {1} : (C.stdout = "empty") # inFile}}
            \cup {Say("file", C.file, "") : q \in {q \in {1} : (C.file = "report") # inFile}}
            \cup IF C.doc.none THEN {Say("no-report", "", "")} ELSE ReportFails(c, C.doc)

Init == cid \in DOMAIN Cases /\ k = 0
Next == /\ k = 0 /\ k' = 1 /\ UNCHANGED cid
        /\ LET v == {ToJson([cl |-> x[1], a |-> x[2], b |-> x[3]]) : x \in Verdict} IN
           PrintT(ToJson([kind |-> IF v = {} THEN "DONE" ELSE "FAIL", tid |-> cid, op |-> 1, fails |-> v]))
Spec == Init /\ [][Next]_vars
=============================================================================
