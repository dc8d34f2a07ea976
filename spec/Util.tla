-------------------------------- MODULE Util --------------------------------
(* Helpers shared by all modules of the specification.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

\* String helpers (TLC supports Len, SubSeq and \o on strings).
StrStartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
StrEndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE Dots(_)
Dots(n) == IF n <= 0 THEN "" ELSE "." \o Dots(n - 1)

\* Position of the first element satisfying P, 0 when there is none.
FirstIdx(s, P(_)) ==
    LET c == {i \in DOMAIN s : P(s[i])} IN IF c = {} THEN 0 ELSE Min(c)

Filter(s, P(_)) == SelectSeq(s, P)

\* Concatenation of a sequence of sequences
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* Sort a set by an integer rank
SortBy(S, R(_)) == SetToSortSeq(S, LAMBDA a, b : R(a) < R(b))

Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)

MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

EmptyFn == [x \in {} |-> 0]
=============================================================================
