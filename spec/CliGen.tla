------------------------------- MODULE CliGen -------------------------------
(* All command lines of up to N options around a group of names, with what  *)
(* they mean, as behaviours of a small state machine.  The harness performs *)
(* them.  With ARGS the meaning of given command lines is printed instead.  *)
EXTENDS Cli, Json, IOUtils

Args == IF "ARGS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.ARGS) ELSE <<>>
Items == JsonDeserialize(IOEnv.ITEMS)      \* options: sequences of arguments
Names == JsonDeserialize(IOEnv.NAMES)      \* groups of names
N == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 3

VARIABLES argv, n, named, given
vars == <<argv, n, named, given>>

Init == \/ argv = <<>> /\ n = 0 /\ named = FALSE /\ given = 0
        \/ given \in DOMAIN Args /\ argv = Args[given] /\ n = N + 1 /\ named = TRUE

AddOption == /\ n < N /\ \E i \in DOMAIN Items : argv' = argv \o Items[i]
             /\ n' = n + 1 /\ UNCHANGED <<named, given>>
AddNames == /\ ~named /\ \E i \in DOMAIN Names : argv' = argv \o Names[i]
            /\ named' = TRUE /\ UNCHANGED <<n, given>>
Next == given = 0 /\ (AddOption \/ AddNames)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the meaning itself.                                        *)
M == Meaning(argv)
Occurs(S) == {i \in DOMAIN argv : argv[i] \in S}

TypeOK == /\ M.type \in {"module", "script", "distribution"}
          /\ M.format \in Formats /\ M.err \in BOOLEAN

Fine == ~M.err /\ ~M.help /\ given = 0 /\ "--" \notin Rng(argv)
Joined(t) == Len(t) > 2 /\ SubSeq(t, 1, 2) \in {"-s", "-d", "-m"}
\* The last of the options for the kind of names counts
LastKind ==
    LET k == Occurs({"-m", "--module", "-s", "--script", "-d", "--distribution"}) IN
    Fine => M.type = IF k = {} \/ \E i \in DOMAIN argv : Joined(argv[i]) THEN M.type
                     ELSE CASE argv[Max(k)] \in {"-m", "--module"} -> "module"
                            [] argv[Max(k)] \in {"-s", "--script"} -> "script"
                            [] OTHER -> "distribution"
\* Every value of -p and -x counts, in the order given
Values(S) == LET idx == SetToSortSeq(Occurs(S), <) IN [i \in DOMAIN idx |-> argv[idx[i] + 1]]
RECURSIVE IsSubSeq(_, _)
IsSubSeq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN IsSubSeq(Tail(a), Tail(b)) ELSE IsSubSeq(a, Tail(b))
PathOrder == Fine => IsSubSeq(Values({"-p", "--path"}), M.path)
AllExcluded == Fine => Rng(Values({"-x", "--exclude"})) \subseteq Rng(M.excl)
Emit == PrintT(ToJson([kind |-> "ARGV", tid |-> given, argv |-> argv, m |-> M]))
=============================================================================
