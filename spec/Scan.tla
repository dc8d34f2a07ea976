-------------------------------- MODULE Scan --------------------------------
(* What the code of a module says: imports and global names.                *)
(*                                                                          *)
(* A body is a record [ss |-> statements, ...].  A statement is one of      *)
(*   [k |-> "import", ms |-> << [m |-> parts, as |-> ""], .. >>]             *)
(*   [k |-> "from", lvl |-> n, m |-> parts, ns |-> << [n |-> "", as |-> ""] >>] *)
(*   [k |-> "w", n |-> name]        binding of a plain name                  *)
(*   [k |-> "g", n |-> name]        global declaration plus binding          *)
(*   [k |-> "r", n |-> name]        use of a name                            *)
(*   [k |-> "blk", t |-> type, n |-> bound name or "",                       *)
(*      ps |-> << [p |-> part kind, ss |-> statements], .. >>]               *)
(* Block types: if, def, adef, class, try, trystar, with, for, while, match; *)
(* part kinds: body, handler, orelse, final, case.                          *)
(*                                                                          *)
(* An import description (one per imported module and statement) is         *)
(*   [m, as, lvl, ns (names, sorted), star, def, cond, tryx]                 *)
EXTENDS Util

IsFn(b) == b.t \in {"def", "adef"}
IsTry(b) == b.t \in {"try", "trystar"}

\* Rank of a string in the alphabetical order of the world; "" comes first.
Rank(W, s) == IF s = "" THEN 0 ELSE W.rk[s]
RankPair(W, p) == Rank(W, p.n) * 10000 + Rank(W, p.as)

-----------------------------------------------------------------------------
(* Source: descriptions from the syntax tree, breadth first.                *)

\* The names of one from-import.  A name imported twice with different "as"
\* clauses leads to several descriptions.
RECURSIVE FromLists(_, _)
FromLists(W, pairs) ==
    IF pairs = {} THEN <<>>
    ELSE LET \* the last pair for a name wins
             cur == {p \in pairs : \A q \in pairs : q.n = p.n => RankPair(W, q) <= RankPair(W, p)}
         IN <<SortBy(cur, LAMBDA p : RankPair(W, p))>> \o FromLists(W, pairs \ cur)

MkInfo(m, as, lvl, ns, fl, d, c, t) ==
    [m |-> m, as |-> as, lvl |-> lvl,
     ns |-> SelectSeq(ns, LAMBDA p : p.n # "*"),
     star |-> \E i \in DOMAIN ns : ns[i].n = "*",
     from |-> fl, def |-> d, cond |-> c, tryx |-> t]

\* An item of the breadth first walk: a statement or a part in its context.
Item(s, d, c, t) == [s |-> s, d |-> d, c |-> c, t |-> t]

OwnInfos(W, it) ==
    LET s == it.s IN
    IF s.k = "import"
    THEN [i \in DOMAIN s.ms |-> MkInfo(s.ms[i].m, s.ms[i].as, 0, <<>>, FALSE, it.d, it.c, it.t)]
    ELSE IF s.k = "from"
    THEN LET l == FromLists(W, Rng(s.ns))
         IN [i \in DOMAIN l |-> MkInfo(s.m, "", s.lvl, l[i], TRUE, it.d, it.c, it.t)]
    ELSE <<>>

PartItems(p, d, c, t) == [i \in DOMAIN p.ss |-> Item(p.ss[i], d, c, t)]

Kids(it) ==
    LET s == it.s IN
    CASE s.k = "part" -> PartItems(s, it.d, it.c, it.t)
      [] s.k = "blk" ->
           LET one(p) ==
                 LET t == IF IsTry(s) THEN it.t \/ p.p # "final" ELSE it.t
                     c == it.c \/ s.t = "if"
                     d == it.d \/ IsFn(s)
                 IN \* handlers and cases are nodes of their own in the syntax tree
                    IF p.p \in {"handler", "case"}
                    THEN <<Item([k |-> "part", ss |-> p.ss], d, c, t)>>
                    ELSE PartItems(p, d, c, t)
           IN Concat([i \in DOMAIN s.ps |-> one(s.ps[i])])
      [] OTHER -> <<>>

RECURSIVE AstLevel(_, _)
AstLevel(W, items) ==
    IF items = <<>> THEN <<>>
    ELSE Concat([i \in DOMAIN items |-> OwnInfos(W, items[i])])
         \o AstLevel(W, Concat([i \in DOMAIN items |-> Kids(items[i])]))

AstInfos(W, body) ==
    AstLevel(W, [i \in DOMAIN body.ss |-> Item(body.ss[i], FALSE, FALSE, FALSE)])

-----------------------------------------------------------------------------
(* Compiled code: descriptions per code object, breadth first.              *)

\* All statements of one code object, without those of nested functions and
\* classes (their headers are included).
RECURSIVE Flat(_)
Flat(ss) ==
    Concat([i \in DOMAIN ss |->
        IF ss[i].k = "blk" /\ ~IsFn(ss[i]) /\ ss[i].t # "class"
        THEN <<ss[i]>> \o Concat([j \in DOMAIN ss[i].ps |-> Flat(ss[i].ps[j].ss)])
        ELSE <<ss[i]>>])

NestedBlocks(flat) == SelectSeq(flat, LAMBDA s : s.k = "blk" /\ (IsFn(s) \/ s.t = "class"))

Code(ss, fn, cls, encl) == [fl |-> Flat(ss), fn |-> fn, cls |-> cls, encl |-> encl]

\* Names bound by a statement in its own scope
StoredBy(s) ==
    CASE s.k = "import" -> {IF s.ms[i].as # "" THEN s.ms[i].as ELSE s.ms[i].m[1] : i \in DOMAIN s.ms}
      [] s.k = "from" -> {IF s.ns[i].as # "" THEN s.ns[i].as ELSE s.ns[i].n :
                          i \in {j \in DOMAIN s.ns : s.ns[j].n # "*"}}
      [] s.k \in {"w", "g"} -> {s.n}
      [] s.k = "blk" /\ s.n # "" -> {s.n}
      [] OTHER -> {}

Declared(c) == {s.n : s \in {x \in Rng(c.fl) : x.k = "g"}}
Locals(c) == UNION {StoredBy(s) : s \in Rng(c.fl)} \ Declared(c)

CodeKids(c) ==
    LET nb == NestedBlocks(c.fl)
        vis == IF c.fn /\ ~c.cls THEN (c.encl \ Declared(c)) \cup Locals(c) ELSE c.encl
    IN [i \in DOMAIN nb |->
          Code(Concat([j \in DOMAIN nb[i].ps |-> nb[i].ps[j].ss]),
               c.fn \/ IsFn(nb[i]), nb[i].t = "class", vis)]

CodeInfos(W, c) ==
    Concat([i \in DOMAIN c.fl |->
        LET s == c.fl[i] IN
        IF s.k = "import"
        THEN [j \in DOMAIN s.ms |-> MkInfo(s.ms[j].m, "", 0, <<>>, FALSE, c.fn, FALSE, FALSE)]
        ELSE IF s.k = "from"
        THEN <<MkInfo(s.m, "", s.lvl,
                      SortBy({[n |-> s.ns[j].n, as |-> ""] : j \in DOMAIN s.ns},
                             LAMBDA p : RankPair(W, p)),
                      TRUE, c.fn, FALSE, FALSE)>>
        ELSE <<>>])

RECURSIVE CodeLevel(_, _)
CodeLevel(W, cs) ==
    IF cs = <<>> THEN <<>>
    ELSE Concat([i \in DOMAIN cs |-> CodeInfos(W, cs[i])])
         \o CodeLevel(W, Concat([i \in DOMAIN cs |-> CodeKids(cs[i])]))

ModuleCode(body) == Code(body.ss, FALSE, FALSE, {})

BytecodeInfos(W, body) == CodeLevel(W, <<ModuleCode(body)>>)

-----------------------------------------------------------------------------
(* Global names.                                                            *)

FromNames(s) == {s.ns[i].n : i \in DOMAIN s.ns} \ {"*"}

WrittenBy(c) ==
    IF c.cls \/ c.fn
    THEN Declared(c) \cap UNION {StoredBy(s) : s \in Rng(c.fl)}
    ELSE UNION {StoredBy(s) : s \in Rng(c.fl)}
         \cup UNION {FromNames(s) : s \in {x \in Rng(c.fl) : x.k = "from"}}

ReadBy(c) ==
    LET used == {s.n : s \in {x \in Rng(c.fl) : x.k = "r"}} IN
    IF c.cls THEN used \cap Declared(c)
    ELSE IF c.fn THEN used \ (Locals(c) \cup (c.encl \ Declared(c)))
    ELSE used

RECURSIVE AllCodes(_)
AllCodes(cs) ==
    IF cs = <<>> THEN {}
    ELSE Rng(cs) \cup AllCodes(Concat([i \in DOMAIN cs |-> CodeKids(cs[i])]))

GlobalsWritten(body) == UNION {WrittenBy(c) : c \in AllCodes(<<ModuleCode(body)>>)}
GlobalsRead(body) == UNION {ReadBy(c) : c \in AllCodes(<<ModuleCode(body)>>)}

Optional(i) == i.def \/ i.cond \/ i.tryx
IsGlobal(i) == ~i.def
=============================================================================
