-------------------------------- MODULE Dist --------------------------------
(* Installed distributions: what a dist-info directory says, and which of   *)
(* them are found on a search path.                                         *)
(*                                                                          *)
(* An item in a search path entry is a record                               *)
(*   [fname, isdir, meta, record]  meta and record are sequences with at     *)
(*   most one element: [lines, ok], ok is false for undecodable files.       *)
EXTENDS Util

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

-----------------------------------------------------------------------------
(* Lines of RECORD: path,hash,size; the path can be quoted.                 *)

\* Position of the K-th last comma, 0 when there are fewer.
RECURSIVE LastComma(_, _, _)
LastComma(s, i, k) ==
    IF i = 0 THEN 0
    ELSE IF Ch(s, i) = "," THEN (IF k = 1 THEN i ELSE LastComma(s, i - 1, k - 1))
    ELSE LastComma(s, i - 1, k)

RECURSIVE Undouble(_)
Undouble(s) ==
    IF Len(s) < 2 THEN s
    ELSE IF SubSeq(s, 1, 2) = "\"\"" THEN "\"" \o Undouble(From(s, 3))
    ELSE Ch(s, 1) \o Undouble(From(s, 2))

RECURSIVE Double(_)
Double(s) ==
    IF s = "" THEN ""
    ELSE (IF Ch(s, 1) = "\"" THEN "\"\"" ELSE Ch(s, 1)) \o Double(From(s, 2))

RecordPath(line) ==
    LET k == LastComma(line, Len(line), 2)
        raw == IF k = 0 THEN line ELSE SubSeq(line, 1, k - 1)
    IN IF Len(raw) >= 2 /\ Ch(raw, 1) = "\"" /\ Ch(raw, Len(raw)) = "\""
       THEN Undouble(SubSeq(raw, 2, Len(raw) - 1)) ELSE raw

\* How installers write such a line
RecordLine(path, quoted, hash, size) ==
    (IF quoted THEN "\"" \o Double(path) \o "\"" ELSE path) \o "," \o hash \o "," \o size

-----------------------------------------------------------------------------
(* Paths                                                                    *)
RECURSIVE Split(_, _, _)
Split(s, c, acc) ==
    IF s = "" THEN <<acc>>
    ELSE IF Ch(s, 1) = c THEN <<acc>> \o Split(From(s, 2), c, "")
    ELSE Split(From(s, 2), c, acc \o Ch(s, 1))
Parts(s) == Split(s, "/", "")

RECURSIVE Normal(_, _)
Normal(ps, acc) ==
    IF ps = <<>> THEN acc
    ELSE LET p == Head(ps) IN
         Normal(Tail(ps), IF p \in {"", "."} THEN acc
                          ELSE IF p = ".." THEN (IF acc = <<>> THEN <<>> ELSE Front(acc))
                          ELSE Append(acc, p))

RECURSIVE Slashed(_)
Slashed(ps) == IF ps = <<>> THEN "" ELSE "/" \o Head(ps) \o Slashed(Tail(ps))

IsAbs(p) == StrStartsWith(p, "/")
PathParts(loc, rel) == IF IsAbs(rel) THEN Normal(Parts(rel), <<>>) ELSE Normal(Parts(loc) \o Parts(rel), <<>>)
AbsPath(loc, rel) == Slashed(PathParts(loc, rel))

-----------------------------------------------------------------------------
(* Importable names                                                         *)
RECURSIVE Dotted(_)
Dotted(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "." \o Dotted(Tail(ps))

\* The longest module suffix of a filename, "" when it is not a module
SuffixOf(sfx, f) ==
    LET c == {s \in sfx : StrEndsWith(f, s)} IN
    IF c = {} THEN "" ELSE CHOOSE s \in c : \A t \in c : Len(t) <= Len(s)

\* The names (none or one) importable because of a recorded path
ImportNames(sfx, loc, rel) ==
    LET base == Normal(Parts(loc), <<>>)
        ps == PathParts(loc, rel)
        inside == ~IsAbs(rel) /\ Len(ps) > Len(base) /\ SubSeq(ps, 1, Len(base)) = base
        own == SubSeq(ps, Len(base) + 1, Len(ps))
        dirs == Front(own)
        f == Last(own)
        s == SuffixOf(sfx, f)
        stem == SubSeq(f, 1, Len(f) - Len(s))
    IN IF ~inside THEN {}
       ELSE IF "__pycache__" \in Rng(dirs) \/ s = "" THEN {}
       ELSE IF stem = "__init__" /\ dirs # <<>> THEN {Dotted(dirs)}
       ELSE {Dotted(Append(dirs, stem))}

-----------------------------------------------------------------------------
(* Metadata: the headers of an e-mail message                               *)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == LET k == {i \in 1 .. 26 : Ch(Upper, i) = c} IN IF k = {} THEN c ELSE Ch(LowerCase, Min(k))
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(From(s, 2))
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t"} THEN LStrip(From(s, 2)) ELSE s

\* The value of the first header KEY, as a sequence with at most one element
Header(lines, key) ==
    LET blank == FirstIdx(lines, LAMBDA l : l = "")
        hs == IF blank = 0 THEN lines ELSE SubSeq(lines, 1, blank - 1)
        k == FirstIdx(hs, LAMBDA l : StrStartsWith(Lower(l), key \o ":"))
    IN IF k = 0 THEN <<>> ELSE <<LStrip(From(hs[k], Len(key) + 2))>>

Ascii == {Ch(" !\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`{|}~", i) : i \in 1 .. 43}
         \cup {Ch(Upper, i) : i \in 1 .. 26} \cup {Ch(LowerCase, i) : i \in 1 .. 26}
IsAscii(s) == \A i \in 1 .. Len(s) : Ch(s, i) \in Ascii

-----------------------------------------------------------------------------
(* Distributions                                                            *)
Value(it, key) == IF it.meta = <<>> THEN <<>> ELSE Header(it.meta[1].lines, key)

Valid(it) ==
    /\ StrEndsWith(it.fname, ".dist-info") /\ it.isdir
    /\ it.meta # <<>> /\ it.record # <<>>
    /\ it.record[1].ok
    /\ \A key \in {"name", "version"} : Value(it, key) # <<>> /\ IsAscii(Value(it, key)[1])

DistAt(sfx, loc, it) ==
    LET rels == {RecordPath(it.record[1].lines[i]) : i \in DOMAIN it.record[1].lines}
    IN [id |-> loc \o "/" \o it.fname, name |-> Value(it, "name")[1], version |-> Value(it, "version")[1],
        files |-> {AbsPath(loc, r) : r \in rels},
        mods |-> UNION {ImportNames(sfx, loc, r) : r \in rels}]

\* The items of an entry in the order of their names
Sorted(rk, its) == LET idx == SortBy(DOMAIN its, LAMBDA i : rk[its[i].fname]) IN [k \in DOMAIN idx |-> its[idx[k]]]

Listing(sfx, rk, path) ==
    Concat([k \in DOMAIN path |->
        IF ~path[k].ok THEN <<>>
        ELSE LET its == SelectSeq(Sorted(rk, path[k].items), Valid)
             IN [i \in DOMAIN its |-> DistAt(sfx, path[k].loc, its[i])]])

Named(ds, name) == LET k == FirstIdx(ds, LAMBDA d : d.name = name) IN IF k = 0 THEN "" ELSE ds[k].id
ForFile(ds, f) == LET k == FirstIdx(ds, LAMBDA d : f \in d.files) IN IF k = 0 THEN "" ELSE ds[k].id
=============================================================================
