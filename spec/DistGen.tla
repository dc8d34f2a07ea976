------------------------------- MODULE DistGen -------------------------------
(* All RECORD lines for paths with up to DEPTH components.  The harness puts *)
(* them into dist-info directories.                                         *)
EXTENDS Dist, Json, IOUtils

Input == JsonDeserialize(IOEnv.INPUT)      \* dirs, stems, suffixes
Depth == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 3

VARIABLES comps, up, path, quoted
vars == <<comps, up, path, quoted>>

RECURSIVE Joined(_)
Joined(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "/" \o Joined(Tail(ps))

Init == comps = <<>> /\ up \in 0 .. 2 /\ path = "" /\ quoted = FALSE
Descend == /\ path = "" /\ Len(comps) < Depth - 1
           /\ \E i \in DOMAIN Input.dirs : comps' = Append(comps, Input.dirs[i])
           /\ UNCHANGED <<up, path, quoted>>
File == /\ path = ""
        /\ \E i \in DOMAIN Input.stems : \E j \in DOMAIN Input.suffixes :
             path' = Joined([k \in 1 .. up |-> ".."] \o Append(comps, Input.stems[i] \o Input.suffixes[j]))
        /\ quoted' \in BOOLEAN /\ UNCHANGED <<comps, up>>
Next == Descend \/ File
Spec == Init /\ [][Next]_vars

Line(h) == RecordLine(path, quoted, IF h THEN "sha256=47DEQpj8HBSa-_TImW" ELSE "", IF h THEN "120" ELSE "")
\* Commas and quotes can only be told apart when the path is quoted, or does
\* not look quoted.
RoundTrip == path # "" => \A h \in BOOLEAN : RecordPath(Line(h)) = path
Emit == path # "" => PrintT(ToJson([kind |-> "LINE", tid |-> 0, path |-> path, line |-> Line(quoted # (up = 1))]))
=============================================================================
