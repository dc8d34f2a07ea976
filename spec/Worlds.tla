------------------------------- MODULE Worlds -------------------------------
(* Small worlds, all of them: every family is a product of choices for the  *)
(* parts of a project and of the calls made on it.  They are used to check  *)
(* the specification itself (see SmallWorlds), and every one of them is run *)
(* on the implementation as well.                                            *)
EXTENDS Calls

\* In alphabetical order
Vocab == <<"*", "K", "__init__", "_m", "_p", "_x", "a", "al", "b", "c", "d", "e", "f", "gc", "h__mypyc", "m", "p", "q", "r", "s", "swig_import_helper",
           "v", "w", "x", "y", "z">>
RankOf == [s \in Rng(Vocab) |-> CHOOSE i \in DOMAIN Vocab : Vocab[i] = s]

-----------------------------------------------------------------------------
(* Code                                                                     *)
Body(ss) == [ss |-> ss, bad |-> "", exec |-> "ok", ns |-> ""]
Empty == Body(<<>>)
Imp(n) == [k |-> "import", ms |-> <<[m |-> n, as |-> ""]>>]
ImpAs(n, as) == [k |-> "import", ms |-> <<[m |-> n, as |-> as]>>]
Nm(n) == [n |-> n, as |-> ""]
From(l, m, ns) == [k |-> "from", lvl |-> l, m |-> m, ns |-> MapSeq(ns, Nm)]
FromAs(l, m, n, as) == [k |-> "from", lvl |-> l, m |-> m, ns |-> <<[n |-> n, as |-> as]>>]
Wr(n) == [k |-> "w", n |-> n]
Gl(n) == [k |-> "g", n |-> n]
Rd(n) == [k |-> "r", n |-> n]
Part(p, ss) == [p |-> p, ss |-> ss]
Blk(t, n, ps) == [k |-> "blk", t |-> t, n |-> n, ps |-> ps]

\* Statements in a context
Contexts == <<"def", "adef", "class", "if", "else", "try", "except", "tryelse", "finally", "trystar", "exceptstar", "with", "for", "forelse",
              "while", "whileelse", "case">>
In(c, ss) ==
    CASE c = "def" -> Blk("def", "f", <<Part("body", ss)>>)
      [] c = "adef" -> Blk("adef", "f", <<Part("body", ss)>>)
      [] c = "class" -> Blk("class", "K", <<Part("body", ss)>>)
      [] c = "if" -> Blk("if", "", <<Part("body", ss)>>)
      [] c = "else" -> Blk("if", "", <<Part("body", <<>>), Part("orelse", ss)>>)
      [] c = "try" -> Blk("try", "", <<Part("body", ss), Part("handler", <<>>)>>)
      [] c = "except" -> Blk("try", "", <<Part("body", <<>>), Part("handler", <<>>), Part("handler", ss)>>)
      [] c = "tryelse" -> Blk("try", "", <<Part("body", <<>>), Part("handler", <<>>), Part("orelse", ss)>>)
      [] c = "finally" -> Blk("try", "", <<Part("body", <<>>), Part("final", ss)>>)
      [] c = "trystar" -> Blk("trystar", "", <<Part("body", ss), Part("handler", <<>>)>>)
      [] c = "exceptstar" -> Blk("trystar", "", <<Part("body", <<>>), Part("handler", ss)>>)
      [] c = "with" -> Blk("with", "", <<Part("body", ss)>>)
      [] c = "for" -> Blk("for", "x", <<Part("body", ss)>>)
      [] c = "forelse" -> Blk("for", "x", <<Part("body", <<>>), Part("orelse", ss)>>)
      [] c = "while" -> Blk("while", "", <<Part("body", ss)>>)
      [] c = "whileelse" -> Blk("while", "", <<Part("body", <<>>), Part("orelse", ss)>>)
      [] c = "case" -> Blk("match", "", <<Part("case", <<>>), Part("case", ss)>>)

RECURSIVE Within(_, _)
Within(cs, ss) == IF cs = <<>> THEN ss ELSE <<In(Head(cs), Within(Tail(cs), ss))>>

-----------------------------------------------------------------------------
(* Files: [at |-> number of the entry of the search path, dir |-> names,    *)
(*         stem |-> name, kind |-> kind, b |-> body]                         *)
File(at, dir, stem, kind, b) == [at |-> at, dir |-> dir, stem |-> stem, kind |-> kind, b |-> b]
Py(dir, stem, b) == File(1, dir, stem, "py", b)
Mod(name, b) == Py(ParentOf(name), Stem(name), b)
Pkg(name, b) == Py(name, "__init__", b)
\* A directory
Dir(at, dir) == File(at, dir, "", "dir", Empty)

EntryName(i) == CASE i = 1 -> "$R/p0" [] i = 2 -> "$R/p1" [] i = 3 -> "$R/p2"
RECURSIVE LocOf(_, _)
LocOf(at, dir) == IF dir = <<>> THEN EntryName(at) ELSE LocOf(at, Front(dir)) \o "/" \o Last(dir)
SuffixOf(k) == CASE k = "py" -> ".py" [] k = "pyc" -> ".pyc" [] k = "so" -> "$E" [] k = "data" -> "" [] k = "dir" -> ""

DirPrefixes(s) == {SubSeq(s, 1, i) : i \in 0 .. Len(s)}

HelloBody == Body(<<Wr("initialized"), Blk("def", "main", <<Part("body", <<>>)>>)>>)

\* A scenario: entries, zips (numbers of the entries that are archives), files,
\* scripts and sources (bodies), aliases, dists, calls.
Blank == [n |-> 1, zips |-> {}, files |-> <<>>, scripts |-> <<>>, sources |-> <<>>, alias |-> <<>>, dists |-> <<>>, ops |-> <<>>,
          builtin |-> TRUE]

ScriptPath(k) == CASE k = 1 -> "$R/bin/a.py" [] k = 2 -> "$R/bin/b.py" [] k = 3 -> "$R/bin/c.py"

FileOrder(e) == (IF e.stem \in DOMAIN RankOf THEN RankOf[e.stem] ELSE 99) * 10
                + (CASE e.kind = "dir" -> 0 [] e.kind = "data" -> 1 [] e.kind = "so" -> 2 [] e.kind = "py" -> 3 [] e.kind = "pyc" -> 4)

MkWorld(s) ==
    LET fs == s.files
        hasBody(k) == k \in {"py", "pyc"}
        dirsOf(i) == {<<i>> \o d : d \in UNION {DirPrefixes(fs[j].dir) : j \in {j \in DOMAIN fs : fs[j].at = i}} \cup {<<>>}}
        dirs == UNION {dirsOf(i) : i \in 1 .. s.n}
        loc(d) == LocOf(d[1], Tail(d))
        entries(d) ==
            {[stem |-> Last(x), kind |-> "dir", body |-> 0, file |-> loc(x)] : x \in {x \in dirs : Len(x) = Len(d) + 1 /\ Front(x) = d}}
            \cup {[stem |-> fs[j].stem, kind |-> fs[j].kind, body |-> IF hasBody(fs[j].kind) THEN j + 1 ELSE 0,
                   file |-> loc(d) \o "/" \o fs[j].stem \o SuffixOf(fs[j].kind)] :
                  j \in {j \in DOMAIN fs : <<fs[j].at>> \o fs[j].dir = d /\ fs[j].kind # "dir"}}
    IN [path |-> [i \in 1 .. s.n |-> EntryName(i)],
        zips |-> [i \in 1 .. s.n |-> i \in s.zips],
        locs |-> [l \in {loc(d) : d \in dirs} |-> LET d == CHOOSE x \in dirs : loc(x) = l IN SortBy(entries(d), FileOrder)],
        bodies |-> <<HelloBody>> \o [j \in DOMAIN fs |-> fs[j].b] \o s.scripts \o s.sources,
        builtin |-> <<"gc">>,
        frozen |-> <<>>,
        sysalias |-> s.alias,
        dists |-> s.dists,
        scripts |-> [k \in DOMAIN s.scripts |-> [path |-> ScriptPath(k), file |-> ScriptPath(k), body |-> 1 + Len(fs) + k]],
        idents |-> Vocab,
        rk |-> RankOf]

\* Calls
Add(n) == [op |-> "module", n |-> n]
Script(k) == [op |-> "script", path |-> ScriptPath(k)]
Source(s, k) == [op |-> "source", body |-> 1 + Len(s.files) + Len(s.scripts) + k]
Exclude(ns) == [op |-> "exclude", form |-> "list", names |-> ns]
ImpliedItem(n, k, to, refs) == [n |-> n, k |-> k, to |-> to, refs |-> refs]
Imply(items) == [op |-> "imply", items |-> items]
ToAlias(n, to) == ImpliedItem(n, "alias", to, <<>>)
ToVirtual(n, to) == ImpliedItem(n, "virtual", to, <<>>)
ToRefs(n, rs) == ImpliedItem(n, "refs", <<>>, rs)
ToNone(n) == ImpliedItem(n, "exclude", <<>>, <<>>)
PostRule(n, act, arg) == [n |-> n, act |-> act, arg |-> arg]
MissRule(n, ret, to) == [n |-> n, ret |-> ret, to |-> to]
Post(h, rules) == [op |-> "posthook", h |-> h, rules |-> rules]
Miss(h, rules) == [op |-> "misshook", h |-> h, rules |-> rules]
CtxI(from, n) == [c |-> "import_module", from |-> from, n |-> n]
CtxP(from, n) == [c |-> "import_package", from |-> from, n |-> n]
Ctx(calls) == [op |-> "ctx", calls |-> calls]
DistOp(name) == [op |-> "dist", name |-> name, form |-> "name"]
Nop == [op |-> "nop"]

-----------------------------------------------------------------------------
(* Products of choices                                                      *)
RECURSIVE Product(_)
Product(dim) == IF dim = <<>> THEN 1 ELSE Head(dim) * Product(Tail(dim))
RECURSIVE Digits(_, _)
Digits(k, dim) == IF dim = <<>> THEN <<>> ELSE <<(k % Head(dim)) + 1>> \o Digits(k \div Head(dim), Tail(dim))

A == <<"a">>
B == <<"b">>
C == <<"c">>
M == <<"m">>
P == <<"p">>
Q == <<"q">>
X == <<"x">>
E1 == <<"e">>
D1 == <<"d">>
PA == <<"p", "a">>
PB == <<"p", "b">>
PQ == <<"p", "q">>
PX == <<"p", "x">>

\* --- from-imports: what the importer says, what the package says, what there is
FromStmts == <<From(0, P, <<"a">>), FromAs(0, P, "a", "y"), From(0, P, <<"b", "a">>), From(0, P, <<"*">>), From(0, PA, <<"b">>), Imp(PA), Imp(PX),
               From(0, P, <<"x">>)>>
FromPkg == <<<<>>, <<Wr("a")>>, <<From(1, <<>>, <<"a">>)>>, <<From(1, A, <<"b">>)>>, <<Imp(A)>>, <<ImpAs(X, "a")>>, <<From(0, Q, <<"*">>)>>,
             <<In("def", <<Gl("a")>>)>>, <<From(0, A, <<"a">>)>>, <<FromAs(1, A, "b", "a")>>, <<In("def", <<Imp(A)>>)>>, <<Imp(P)>>>>
FromDim == <<Len(FromStmts), Len(FromPkg), 4, 3, 2, 2>>
FromAt(d) ==
    LET p == FromPkg[d[2]]
        files == <<Mod(M, Body(<<FromStmts[d[1]]>>))>>
                 \o (CASE d[3] = 1 -> <<Pkg(P, Body(p))>> [] d[3] = 2 -> <<Mod(P, Body(p))>> [] d[3] = 3 -> <<Dir(1, P)>> [] d[3] = 4 -> <<File(1, P, "__init__", "pyc", Body(p))>>)
                 \o (CASE d[4] = 1 \/ d[3] = 2 -> <<>> [] d[4] = 2 -> <<Mod(PA, Body(<<Wr("b")>>))>> [] d[4] = 3 -> <<Pkg(PA, Body(<<Imp(P)>>))>>)
                 \o (IF d[5] = 1 THEN <<>> ELSE <<Mod(A, Empty)>>)
                 \o <<Mod(Q, Body(<<Wr("a"), Wr("b")>>))>>
    IN [Blank EXCEPT !.files = files, !.ops = IF d[6] = 1 THEN <<Add(M)>> ELSE <<Add(P), Add(M)>>]

\* --- configured actions
ConfUse == <<<<Imp(B)>>, <<From(0, P, <<"c">>)>>, <<Imp(<<"p", "c">>), Imp(B)>>, <<From(0, B, <<"c">>), From(0, C, <<"v">>)>>>>
ConfOps == <<Nop, Exclude(<<B>>), Exclude(<<P>>), Exclude(<<<<"p", "c">>>>), Imply(<<ToAlias(B, C)>>), Imply(<<ToAlias(B, <<"p", "c">>)>>), Imply(<<ToAlias(<<"p", "c">>, B)>>),
             Imply(<<ToVirtual(B, C)>>), Imply(<<ToRefs(B, <<C, P>>)>>), Imply(<<ToRefs(P, <<X>>)>>), Imply(<<ToNone(B)>>), Imply(<<ToAlias(P, C)>>), Imply(<<ToAlias(C, B)>>),
             Imply(<<ToRefs(C, <<B, A>>)>>), Imply(<<ToRefs(X, <<B>>)>>), Imply(<<ToAlias(A, B)>>), Exclude(<<C, <<"p", "c">>>>), Imply(<<ToAlias(B, X)>>)>>
ConfDim == <<Len(ConfUse), Len(ConfOps), Len(ConfOps), 3>>
ConfAt(d) ==
    [Blank EXCEPT
       !.files = <<Mod(A, Body(ConfUse[d[1]])), Mod(B, Body(<<Imp(C), Wr("c")>>)), Mod(C, Body(<<Wr("v")>>)), Pkg(P, Body(<<Imp(B)>>)), Mod(<<"p", "c">>, Body(<<Imp(X)>>))>>,
       !.ops = LET c1 == ConfOps[d[2]] c2 == ConfOps[d[3]] IN
               CASE d[4] = 1 -> <<c1, c2, Add(A)>> [] d[4] = 2 -> <<c1, Add(A), c2, Add(B)>> [] d[4] = 3 -> <<c1, Add(<<"p", "c">>), c2, Add(A), Add(C)>>]

\* --- contexts of imports: every form in every context in every context
\* (what says that star imports are allowed is not in a function or class)
Plain(c) == c \notin {"def", "adef", "class"}
ScanForms(star) == <<Imp(B), ImpAs(C, "y"), From(0, P, <<"c">>), FromAs(0, P, "q", "z"), From(0, E1, <<"v", "w">>)>> \o IF star THEN <<From(0, D1, <<"*">>)>> ELSE <<>>
CtxOf(i, j) == (IF i = 1 THEN <<>> ELSE <<Contexts[i - 1]>>) \o (IF j = 1 THEN <<>> ELSE <<Contexts[j - 1]>>)
ScanDim == <<Len(Contexts) + 1, Len(Contexts) + 1, 2>>
ScanFiles == <<Mod(B, Empty), Mod(C, Empty), Pkg(P, Empty), Mod(<<"p", "c">>, Empty), Mod(<<"p", "q">>, Empty), Mod(E1, Body(<<Wr("v"), Imp(<<"w">>)>>)), Mod(D1, Body(<<Wr("d"), Wr("v")>>)), Mod(<<"w">>, Empty)>>
ScanAt(d) ==
    LET cs == CtxOf(d[1], d[2]) IN
    [Blank EXCEPT !.files = <<File(1, <<>>, "m", IF d[3] = 1 THEN "py" ELSE "pyc", Body(Within(cs, ScanForms(\A i \in DOMAIN cs : Plain(cs[i])))))>> \o ScanFiles,
                  !.ops = <<Add(M)>>]

\* Three levels, as script, source, module and compiled module
DeepDim == <<Len(Contexts), Len(Contexts), Len(Contexts), 4>>
DeepAt(d) ==
    LET cs == <<Contexts[d[1]], Contexts[d[2]], Contexts[d[3]]>>
        b == Body(Within(cs, <<Imp(B), FromAs(0, P, "c", "z")>>))
        s == [Blank EXCEPT !.files = ScanFiles] IN
    CASE d[4] = 1 -> [s EXCEPT !.files = @ \o <<Mod(M, b)>>, !.ops = <<Add(M)>>]
      [] d[4] = 2 -> [s EXCEPT !.files = @ \o <<File(1, <<>>, "m", "pyc", b)>>, !.ops = <<Add(M)>>]
      [] d[4] = 3 -> [s EXCEPT !.scripts = <<b>>, !.ops = <<Script(1)>>]
      [] d[4] = 4 -> [s EXCEPT !.sources = <<b>>, !.ops = <<Source(s, 1)>>]

\* Two imports of the same module
TwiceDim == <<Len(Contexts) + 1, Len(Contexts) + 1, 4>>
TwiceAt(d) ==
    LET one(i, s) == IF i = 1 THEN <<s>> ELSE <<In(Contexts[i - 1], <<s>>)>>
        f(k) == CASE k = 1 -> Imp(B) [] k = 2 -> ImpAs(B, "y") [] k = 3 -> From(0, P, <<"c">>) [] k = 4 -> From(0, P, <<"c", "q">>)
        s1 == f(IF d[3] < 3 THEN 1 ELSE 3)
        s2 == f(d[3])
    IN [Blank EXCEPT !.files = <<Mod(M, Body(one(d[1], s1) \o one(d[2], s2)))>> \o ScanFiles, !.ops = <<Add(M)>>]

\* --- global names: a name bound, declared or used at every level
NameOf(k) == CASE k = 1 -> <<>> [] k = 2 -> <<Wr("v")>> [] k = 3 -> <<Gl("v")>> [] k = 4 -> <<Rd("v")>> [] k = 5 -> <<Imp(<<"v">>)>> [] k = 6 -> <<FromAs(0, X, "w", "v")>>
             [] k = 7 -> <<Wr("v"), Rd("v")>>
NameCtx == <<"def", "class", "if", "for">>
NamesDim == <<5, 6, 7, 4, 4, 2>>
NamesAt(d) ==
    LET ss == NameOf(d[1]) \o <<In(NameCtx[d[4]], NameOf(d[2]) \o <<In(NameCtx[d[5]], NameOf(d[3]))>>)>> IN
    [Blank EXCEPT !.files = <<File(1, <<>>, "m", IF d[6] = 1 THEN "py" ELSE "pyc", Body(ss))>>, !.ops = <<Add(M)>>]

\* --- relative imports
RelName == <<<<>>, A, <<"a", "b">>, Q>>
RelNames == <<<<"a">>, <<"a", "v">>, <<"*">>>>
RelDim == <<8, 5, Len(RelName), Len(RelNames), 4>>
RelWhere == <<M, P, <<"p", "m">>, PQ, <<"p", "q", "m">>, <<"s", "m">>, <<"p", "s", "m">>>>
RelAt(d) ==
    LET lvl == d[2] - 1
        st == IF lvl = 0 THEN From(0, P \o RelName[d[3]], RelNames[d[4]]) ELSE From(lvl, RelName[d[3]], RelNames[d[4]])
        at(n) == Body(IF d[1] <= 7 /\ RelWhere[IF d[1] <= 7 THEN d[1] ELSE 1] = n THEN <<st>> ELSE <<>>)
        files == <<Mod(M, at(M)), Pkg(P, at(P)), Mod(<<"p", "m">>, at(<<"p", "m">>)), Pkg(PQ, at(PQ)), Mod(<<"p", "q", "m">>, at(<<"p", "q", "m">>)),
                   Mod(<<"s", "m">>, at(<<"s", "m">>)), Mod(<<"p", "s", "m">>, at(<<"p", "s", "m">>))>>
                 \o (IF d[5] \in {1, 2} THEN <<Mod(PA, Body(<<Wr("v")>>))>> ELSE <<>>)
                 \o (IF d[5] \in {2, 3} THEN <<Pkg(<<"p", "q", "a">>, Empty), Mod(<<"p", "q", "a", "b">>, Empty)>> ELSE <<>>)
                 \o (IF d[5] = 4 THEN <<Mod(A, Empty)>> ELSE <<>>)
    IN IF d[1] = 8 THEN [Blank EXCEPT !.files = files, !.scripts = <<Body(<<st>>)>>, !.ops = <<Script(1)>>]
       ELSE [Blank EXCEPT !.files = files, !.ops = <<Add(RelWhere[d[1]])>>]

\* --- what is found for a name: every way to have p and p.a in an entry
\* p: nothing, one or two kinds of file, directory with or without code, with
\* or without a file of the same name.
FileStates == <<<<>>, <<"py">>, <<"pyc">>, <<"so">>, <<"py", "pyc">>, <<"py", "so">>, <<"data">>>>
DirStates == <<"none", "plain", "py", "pyc", "so", "both", "bad">>
SubStates == <<"none", "py", "pkg", "dir", "so", "pyc">>
FindFiles(at, f, q, sub) ==
    [i \in DOMAIN FileStates[f] |-> File(at, <<>>, "p", FileStates[f][i], Body(<<Wr("v")>>))]
    \o (LET s == DirStates[q] IN
        CASE s = "none" -> <<>> [] s = "plain" -> <<Dir(at, P)>> [] s = "py" -> <<File(at, P, "__init__", "py", Body(<<Wr("w")>>))>>
          [] s = "pyc" -> <<File(at, P, "__init__", "pyc", Body(<<Wr("w")>>))>> [] s = "so" -> <<File(at, P, "__init__", "so", Empty)>>
          [] s = "both" -> <<File(at, P, "__init__", "py", Empty), File(at, P, "__init__", "so", Empty)>>
          [] s = "bad" -> <<File(at, P, "__init__", "py", [Empty EXCEPT !.bad = "parse"])>>)
    \o (IF DirStates[q] = "none" THEN <<>>
        ELSE LET s == SubStates[sub] IN
             CASE s = "none" -> <<>> [] s = "py" -> <<File(at, P, "a", "py", Empty)>> [] s = "pkg" -> <<File(at, PA, "__init__", "py", Empty)>>
               [] s = "dir" -> <<Dir(at, PA)>> [] s = "so" -> <<File(at, P, "a", "so", Empty)>> [] s = "pyc" -> <<File(at, P, "a", "pyc", Empty)>>)
\* A directory with the name of a file without suffix cannot be there
FindOk(f, q) == ~(FileStates[f] = <<"data">> /\ DirStates[q] # "none")
FindDim == <<Len(FileStates), Len(DirStates), Len(SubStates), Len(FileStates), Len(DirStates), Len(SubStates)>>
FindAtD(d) ==
    LET f1 == IF FindOk(d[1], d[2]) THEN d[1] ELSE 1
        f2 == IF FindOk(d[4], d[5]) THEN d[4] ELSE 1
        \* entries that do not matter are in archives when nothing is against it
        zips == {i \in {2} : FileStates[f2] \in {<<>>, <<"py">>, <<"pyc">>} /\ DirStates[d[5]] \in {"none", "plain", "py", "pyc"} /\ SubStates[d[6]] # "so" /\ (f2 = 1 \/ DirStates[d[5]] \in {"none", "plain"})
                         /\ (d[1] + d[3] + d[4]) % 2 = 0}
    IN [Blank EXCEPT !.n = 2, !.zips = zips, !.files = FindFiles(1, f1, d[2], d[3]) \o FindFiles(2, f2, d[5], d[6]),
                     !.ops = <<Add(PA), Add(P)>>]

\* Three entries
PortDim == <<6, 6, 6, 3>>
PortFiles(at, k) ==
    CASE k = 1 -> <<>> [] k = 2 -> <<Dir(at, P)>> [] k = 3 -> <<File(at, P, "a", "py", Empty)>> [] k = 4 -> <<File(at, PA, "b", "py", Empty)>>
      [] k = 5 -> <<File(at, P, "__init__", "py", [Empty EXCEPT !.ns = "pkgutil"]), File(at, PA, "c", "py", Empty)>> [] k = 6 -> <<File(at, <<>>, "p", "py", Empty)>>
PortAt(d) ==
    [Blank EXCEPT !.n = 3, !.zips = {i \in 1 .. 3 : i < d[4] /\ \A j \in 1 .. 3 : d[j] # 5}, !.files = PortFiles(1, d[1]) \o PortFiles(2, d[2]) \o PortFiles(3, d[3]),
                  !.ops = <<Exclude(<<<<"pkgutil">>>>), Add(<<"p", "a", "b">>), Add(<<"p", "a", "c">>)>>]

\* --- histories: all sequences of calls
HistOps == <<Add(A), Add(PA), Add(<<"z">>), Add(<<"a", "", "b">>), Script(1), Script(2), Exclude(<<B>>), Imply(<<ToAlias(B, C)>>), Ctx(<<CtxI(A, PB), CtxI(P, <<"z">>)>>),
             Post(1, <<PostRule(B, "import_module", X)>>), Miss(1, <<MissRule(X, "alias", C)>>), [op |-> "source", body |-> 11], [op |-> "script", path |-> "$R/bin/z.py"], Ctx(<<CtxP(B, P)>>),
             [op |-> "dist", name |-> "z", form |-> "name"], [op |-> "exclude", form |-> "str", names |-> <<C>>]>>
HistDim == <<Len(HistOps), Len(HistOps), Len(HistOps)>>
\* hooks are counted
RECURSIVE Numbered(_, _, _)
Numbered(ops, p, m) ==
    IF ops = <<>> THEN <<>>
    ELSE LET o == Head(ops) IN
         IF o.op = "posthook" THEN <<[o EXCEPT !.h = p]>> \o Numbered(Tail(ops), p + 1, m)
         ELSE IF o.op = "misshook" THEN <<[o EXCEPT !.h = m]>> \o Numbered(Tail(ops), p, m + 1)
         ELSE <<o>> \o Numbered(Tail(ops), p, m)
HistAt(d) ==
    [Blank EXCEPT
       !.files = <<Mod(A, Body(<<Imp(B), From(0, P, <<"a">>)>>)), Mod(B, Body(<<Imp(X), Imp(A)>>)), Mod(C, Empty), Pkg(P, Body(<<From(1, <<>>, <<"b">>)>>)), Mod(PA, Body(<<In("def", <<Imp(C)>>)>>)),
                   Mod(PB, Body(<<From(3, X, <<"y">>)>>)), Mod(<<"q">>, Empty)>>,
       !.scripts = <<Body(<<Imp(A)>>), [Empty EXCEPT !.bad = "parse"]>>,
       !.sources = <<Body(<<From(0, P, <<"a", "z">>), Imp(Q)>>)>>,
       !.ops = Numbered(<<HistOps[d[1]], HistOps[d[2]], HistOps[d[3]]>>, 1, 1)]

\* --- hooks
HookNames == <<A, B, P, X>>
HookActs2 == <<"import_module", "import_package", "add_module">>
HookArgs == <<C, P, PX, Q, A>>
HookMiss == <<<<>>, <<MissRule(X, "virtual", B)>>, <<MissRule(X, "alias", Q)>>, <<MissRule(X, "module", Q)>>, <<MissRule(X, "alias", PX), MissRule(PX, "virtual", C)>>,
              <<MissRule(PX, "module", C)>>>>
HookDim == <<Len(HookNames), Len(HookActs2), Len(HookArgs), Len(HookMiss), Len(HookMiss), 2, 2>>
HookAt(d) ==
    LET post == Post(1, <<PostRule(HookNames[d[1]], HookActs2[d[2]], HookArgs[d[3]])>>)
        \* the target of an alias is not answered by another hook
        k2 == IF {d[4], d[5]} = {5, 6} THEN 1 ELSE d[5]
        m1 == Miss(1, HookMiss[d[4]])
        m2 == Miss(2, HookMiss[k2]) IN
    [Blank EXCEPT
       !.files = <<Mod(A, Body(<<Imp(B), Imp(P)>>)), Mod(B, Body(<<Imp(X), Imp(C)>>)), Mod(C, Body(<<Imp(A)>>)), Pkg(P, Body(<<From(1, <<>>, <<"a", "x">>)>>)), Mod(PA, Body(<<Imp(X)>>)),
                   Pkg(PQ, Empty), Mod(<<"p", "q", "a">>, Empty), Mod(Q, Body(<<Imp(B)>>))>>,
       !.ops = IF d[6] = 1 THEN <<post, m1, m2, Add(IF d[7] = 1 THEN A ELSE PA)>> ELSE <<m1, Add(IF d[7] = 1 THEN P ELSE Q), Numbered(<<m2>>, 1, 2)[1], post, Add(A)>>]

\* --- broken code
BadStates == <<Empty, [Empty EXCEPT !.bad = "parse"], [Body(<<Imp(C)>>) EXCEPT !.bad = "sem"], [Empty EXCEPT !.bad = "enc"], [Body(<<Imp(B)>>) EXCEPT !.exec = "raise"], [Empty EXCEPT !.exec = "importerror"],
               [Empty EXCEPT !.exec = "exit"], [Empty EXCEPT !.exec = "notfound"]>>
BadUse == <<<<Imp(PA)>>, <<From(0, P, <<"a">>)>>, <<From(0, PA, <<"v">>)>>, <<From(0, P, <<"*">>), Imp(B)>>>>
BadDim == <<Len(BadStates), Len(BadStates), Len(BadUse), 2, 2, 2>>
BadAt(d) ==
    LET kind(i, k) == IF i = 2 /\ BadStates[k].bad \notin {"sem", "enc"} THEN "pyc" ELSE "py" IN
    [Blank EXCEPT
       !.zips = IF d[6] = 2 THEN {1} ELSE {},
       !.files = <<Mod(M, Body(BadUse[d[3]])), File(1, P, "__init__", kind(d[4], d[1]), BadStates[d[1]]), File(1, P, "a", kind(d[5], d[2]), BadStates[d[2]]), Mod(B, Empty), Mod(C, Empty)>>,
       !.ops = <<Add(M), Add(PB)>>]

\* --- extension modules made by SWIG
SwigImp(n) == IF n = P THEN P ELSE IF n = M THEN M ELSE <<"p", "m">>
SwigDim == <<3, 6, 6, 5, 2>>
SwigAt(d) ==
    LET who == <<P, M, <<"p", "m">>>>[d[1]]
        ext == "_m"
        nm == IF who = P THEN "_p" ELSE ext
        use == CASE d[2] = 1 -> Imp(<<nm>>) [] d[2] = 2 -> ImpAs(<<nm>>, "y") [] d[2] = 3 -> From(0, <<nm>>, <<"v">>) [] d[2] = 4 -> Imp(<<nm, "a">>) [] d[2] = 5 -> From(1, <<>>, <<nm>>)
                 [] d[2] = 6 -> Imp(<<"_x">>)
        ss == CASE d[3] = 1 -> <<Blk("def", "swig_import_helper", <<Part("body", <<use>>)>>)>> [] d[3] = 2 -> <<Blk("def", "swig_import_helper", <<Part("body", <<>>)>>), use>>
                [] d[3] = 3 -> <<use, Wr("swig_import_helper")>> [] d[3] = 4 -> <<use>> [] d[3] = 5 -> <<In("def", <<Wr("swig_import_helper")>>), use>>
                [] d[3] = 6 -> <<In("class", <<Wr("swig_import_helper"), use>>)>>
        ex == CASE d[4] = 1 -> <<>> [] d[4] = 2 -> <<File(1, P, nm, "so", Empty)>> [] d[4] = 3 -> <<File(1, <<>>, nm, "so", Empty)>> [] d[4] = 4 -> <<File(1, P, nm, "py", Body(<<Wr("v")>>))>>
                [] d[4] = 5 -> <<File(1, P, nm, "so", Empty), File(1, P, nm, "py", Empty)>>
    IN [Blank EXCEPT !.builtin = d[5] = 1,
          !.files = <<Pkg(P, Body(IF who = P THEN ss ELSE <<>>)), Mod(M, Body(IF who = M THEN ss ELSE <<>>)), Mod(<<"p", "m">>, Body(IF who = <<"p", "m">> THEN ss ELSE <<>>))>> \o ex,
          !.ops = <<Add(who), Add(P)>>]

\* --- names in sys.modules for other modules
AliasKeys == <<<<"al">>, <<"a", "al">>, <<"q", "al">>>>
AliasTos == <<X, PQ, <<"q", "x">>, Q>>
AliasUse(k) == <<<<Imp(k)>>, <<From(0, k, <<"v">>)>>, <<Imp(Append(k, "a"))>>, <<From(0, k, <<"a">>), Imp(Q)>>, IF Len(k) = 1 THEN <<ImpAs(k, "y")>> ELSE <<From(0, ParentOf(k), <<Stem(k)>>)>>>>
AliasDim == <<Len(AliasKeys), Len(AliasTos), 5, 2, 6>>
AliasAt(d) ==
    LET key == AliasKeys[d[1]]
        to == AliasTos[d[2]] IN
    [Blank EXCEPT
       !.alias = <<[n |-> key, to |-> to]>>,
       !.files = <<Mod(A, Empty), Mod(X, Body(<<Wr("v"), In("def", <<Imp(B)>>)>>)), Pkg(P, Empty), Pkg(PQ, Body(<<Wr("v")>>)), Mod(<<"p", "q", "a">>, Empty), Pkg(Q, Empty), Mod(<<"q", "x">>, Empty), Mod(<<"q", "a">>, Empty),
                   Mod(M, Body(AliasUse(key)[d[3]]))>>,
       !.ops = (IF d[4] = 1 THEN <<>> ELSE <<Add(to)>>)
               \o (CASE d[5] = 1 -> <<Add(M)>> [] d[5] = 2 -> <<Exclude(<<to>>), Add(M)>> [] d[5] = 3 -> <<Add(key), Add(M), Add(to)>>
                   [] d[5] = 4 -> <<Imply(<<ToRefs(to, <<A, B>>)>>), Add(M)>> [] d[5] = 5 -> <<Imply(<<ToAlias(to, A)>>), Add(M)>>
                   [] d[5] = 6 -> <<Exclude(<<IF Len(to) = 1 THEN Q ELSE ParentOf(to)>>), Add(M), Add(key)>>)]

\* --- distributions
DistFiles == <<<<>>, <<"$R/p0/a.py">>, <<"$R/p0/p/__init__.py", "$R/p0/p/b.py">>, <<"$R/p0/a.py", "$R/p0/p/b.py", "$R/bin/a.py">>, <<"$R/p0/a.py", "$R/p0/p/__init__.py", "$R/p0/p/b.py">>>>
DistMods == <<<<>>, <<A>>, <<P, PB>>, <<A, PB>>, <<A, P, PB>>>>
DistRec(i, f, at) == LET nm == IF i = 1 THEN "a" ELSE "b" IN
    [id |-> EntryName(at) \o "/" \o nm \o "-1.dist-info", name |-> "dist-" \o nm, version |-> "1", loc |-> EntryName(at), files |-> DistFiles[f], mods |-> DistMods[f]]
DistDim == <<Len(DistFiles), Len(DistFiles), 2, 5>>
DistAt(d) ==
    [Blank EXCEPT
       !.n = 2,
       !.files = <<Mod(A, Body(<<From(0, P, <<"b">>)>>)), Pkg(P, Empty), Mod(PB, Body(<<Imp(X)>>)), File(2, <<>>, "x", "py", Empty)>>,
       \* files of the first entry are listed relative to it
       !.dists = <<DistRec(1, d[1], 1), DistRec(2, IF d[3] = 2 THEN 1 ELSE d[2], d[3])>>,
       !.ops = CASE d[4] = 1 -> <<Add(A), Add(P)>> [] d[4] = 2 -> <<DistOp("dist-a"), Add(A)>> [] d[4] = 3 -> <<DistOp("dist-b"), DistOp("dist-a"), DistOp("dist-b")>>
                 [] d[4] = 4 -> <<Add(A), DistOp("dist-a"), DistOp("dist-c")>> [] d[4] = 5 -> <<Exclude(<<P>>), DistOp("dist-a"), DistOp("dist-b")>>]

\* --- data files of packages
DataDim == <<2, 2, 2, 2, 2, 2, 2>>
DataAt(d) ==
    LET opt(i, f) == IF d[i] = 1 THEN <<>> ELSE <<f>> IN
    [Blank EXCEPT
       !.zips = IF d[7] = 2 THEN {1} ELSE {},
       !.files = <<Pkg(P, Empty), Pkg(PQ, Empty)>> \o opt(1, File(1, P, "x", "data", Empty)) \o opt(2, File(1, <<"p", "r", "s">>, "x", "data", Empty)) \o opt(3, File(1, <<"p", "__pycache__">>, "x", "data", Empty))
                 \o opt(4, File(1, <<"p", "q", ".git">>, "y", "data", Empty)) \o opt(5, File(1, <<"p", "r">>, "a", "py", Empty)) \o opt(6, File(1, <<"p", "q", "s">>, "z", "data", Empty)),
       !.ops = <<Add(PQ)>>]

-----------------------------------------------------------------------------
Families == {"from", "conf", "scan", "deep", "twice", "names", "rel", "find", "port", "hist", "hook", "bad", "swig", "alias", "dist", "data"}
Dim(f) == CASE f = "from" -> FromDim [] f = "conf" -> ConfDim [] f = "scan" -> ScanDim [] f = "deep" -> DeepDim [] f = "twice" -> TwiceDim [] f = "names" -> NamesDim [] f = "rel" -> RelDim
            [] f = "find" -> FindDim [] f = "port" -> PortDim [] f = "hist" -> HistDim [] f = "hook" -> HookDim [] f = "bad" -> BadDim [] f = "swig" -> SwigDim [] f = "alias" -> AliasDim
            [] f = "dist" -> DistDim [] f = "data" -> DataDim
Scenario(f, d) ==
    CASE f = "from" -> FromAt(d) [] f = "conf" -> ConfAt(d) [] f = "scan" -> ScanAt(d) [] f = "deep" -> DeepAt(d) [] f = "twice" -> TwiceAt(d) [] f = "names" -> NamesAt(d) [] f = "rel" -> RelAt(d)
      [] f = "find" -> FindAtD(d) [] f = "port" -> PortAt(d) [] f = "hist" -> HistAt(d) [] f = "hook" -> HookAt(d) [] f = "bad" -> BadAt(d) [] f = "swig" -> SwigAt(d) [] f = "alias" -> AliasAt(d)
      [] f = "dist" -> DistAt(d) [] f = "data" -> DataAt(d)
Size(f) == Product(Dim(f))
=============================================================================
