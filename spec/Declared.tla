------------------------------ MODULE Declared ------------------------------
(* What the properties say, in terms of the text of the code, the files and *)
(* the calls, and not in terms of how a graph is built: this is what the     *)
(* specification is checked against (see SmallWorlds).                       *)
EXTENDS Worlds

-----------------------------------------------------------------------------
(* Statements and where they are.  A path leads from the module to the      *)
(* statement: which block, and which part of it.                             *)
RECURSIVE Occ(_, _)
Occ(ss, path) ==
    UNION {LET s == ss[i] IN
           IF s.k = "blk"
           THEN {[s |-> s, path |-> Append(path, [t |-> "", p |-> "", i |-> i])]}
                \cup UNION {Occ(s.ps[j].ss, Append(path, [t |-> s.t, p |-> s.ps[j].p, i |-> i * 10 + j])) : j \in DOMAIN s.ps}
           ELSE {[s |-> s, path |-> Append(path, [t |-> "", p |-> "", i |-> i])]} : i \in DOMAIN ss}
Occurrences(b) == Occ(b.ss, <<>>)

InFn(o) == \E x \in Rng(o.path) : x.t \in {"def", "adef"}
InIf(o) == \E x \in Rng(o.path) : x.t = "if"
InTry(o) == \E x \in Rng(o.path) : x.t \in {"try", "trystar"} /\ x.p # "final"

\* The imports in the text of a module: [lvl, m, as, opt, glob, ns, star]
Imports(b, compiled) ==
    LET os == Occurrences(b)
        opt(o) == InFn(o) \/ (~compiled /\ (InIf(o) \/ InTry(o)))
        rec(o, l, m, as, ns) == [lvl |-> l, m |-> m, as |-> IF compiled THEN "" ELSE as, opt |-> opt(o), glob |-> ~InFn(o),
                                 ns |-> {[n |-> x.n, as |-> IF compiled THEN "" ELSE x.as] : x \in ns}, star |-> \E x \in ns : x.n = "*"]
    IN UNION {{rec(o, 0, x.m, x.as, {}) : x \in Rng(o.s.ms)} : o \in {o \in os : o.s.k = "import"}}
       \cup {rec(o, o.s.lvl, o.s.m, "", Rng(o.s.ns)) : o \in {o \in os : o.s.k = "from"}}

-----------------------------------------------------------------------------
(* Names of a scope.                                                        *)
Scopes == {"def", "adef", "class"}
\* The path up to the innermost scope, <<>> for the module
ScopeOf(path) ==
    LET k == {i \in DOMAIN path : path[i].t \in Scopes} IN IF k = {} THEN <<>> ELSE SubSeq(path, 1, Max(k))
Outer(scope) == ScopeOf(Front(scope))
IsClass(scope) == scope # <<>> /\ Last(scope).t = "class"

BindsIn(b, scope) == {o \in Occurrences(b) : ScopeOf(o.path) = scope}
Bound(b, scope) == UNION {StoredBy(o.s) : o \in BindsIn(b, scope)}
GlobalHere(b, scope) == {o.s.n : o \in {o \in BindsIn(b, scope) : o.s.k = "g"}}

\* Does NAME in SCOPE mean the global variable?  (Functions and the module.)
RECURSIVE MeansGlobal(_, _, _)
MeansGlobal(b, scope, n) ==
    IF scope = <<>> THEN TRUE
    ELSE IF IsClass(scope) THEN MeansGlobal(b, Outer(scope), n)
    ELSE IF n \in GlobalHere(b, scope) THEN TRUE
    ELSE IF n \in Bound(b, scope) THEN FALSE
    ELSE MeansGlobal(b, Outer(scope), n)

DeclaredWritten(b) ==
    LET os == Occurrences(b) IN
    UNION {LET sc == ScopeOf(o.path) IN
           IF sc = <<>> THEN StoredBy(o.s) \cup (IF o.s.k = "from" THEN {x.n : x \in Rng(o.s.ns)} \ {"*"} ELSE {})
           ELSE StoredBy(o.s) \cap GlobalHere(b, sc) : o \in os}
DeclaredRead(b) ==
    LET os == {o \in Occurrences(b) : o.s.k = "r"} IN
    {o.s.n : o \in {o \in os : LET sc == ScopeOf(o.path) IN IF IsClass(sc) THEN o.s.n \in GlobalHere(b, sc) ELSE MeansGlobal(b, sc, o.s.n)}}

-----------------------------------------------------------------------------
(* Relative imports: the package of a module, and the package LVL above.    *)
PackageOf(cls, n) ==
    IF cls = "Script" THEN <<>>
    ELSE IF cls \in {"Package", "FrozenPackage", "NamespacePackage"} THEN n ELSE ParentOf(n)
RECURSIVE Above(_, _)
Above(pkg, k) == IF pkg = <<>> \/ k = 0 THEN pkg ELSE Above(ParentOf(pkg), k - 1)

\* The name of the node for an import in module N
TargetName(cls, n, i) ==
    IF i.lvl = 0 THEN i.m
    ELSE LET base == Above(PackageOf(cls, n), i.lvl - 1) IN IF base = <<>> THEN <<Dots(i.lvl)>> \o i.m ELSE base \o i.m

-----------------------------------------------------------------------------
(* Files.                                                                   *)
HasInit(W, l) == IsLoc(W, l) /\ \E e \in Rng(W.locs[l]) : e.stem = "__init__" /\ e.kind \in {"py", "pyc", "so"}
HasModule(W, l, stem) == IsLoc(W, l) /\ \E e \in Rng(W.locs[l]) : e.stem = stem /\ e.kind \in {"py", "pyc", "so"}
Provides(W, l, stem) == HasModule(W, l, stem) \/ HasInit(W, Join(l, stem))

HasDataIn(W, top) ==
    \E l \in DOMAIN W.locs :
        /\ l = top \/ StrStartsWith(l, top \o "/")
        /\ \E e \in Rng(W.locs[l]) : e.kind = "data"
        /\ ~\E k \in DOMAIN W.locs : /\ StrStartsWith(k, top \o "/")
                                     /\ k = l \/ StrStartsWith(l, k \o "/")
                                     /\ \E x \in IgnoredDirs : StrEndsWith(k, "/" \o x)

\* The modules in the directories of a package
RECURSIVE ModulesIn(_, _, _)
ModulesIn(W, name, l) ==
    IF ~IsLoc(W, l) THEN {}
    ELSE UNION {IF e.kind \in {"py", "pyc", "so"} /\ e.stem # "__init__" THEN {Append(name, e.stem)}
                ELSE IF e.kind = "dir" /\ HasInit(W, Join(l, e.stem)) THEN {Append(name, e.stem)} \cup ModulesIn(W, Append(name, e.stem), Join(l, e.stem))
                ELSE {} : e \in {e \in Rng(W.locs[l]) : IsIdent(W, e.stem)}}
=============================================================================
