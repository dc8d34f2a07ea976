------------------------------- MODULE Finder -------------------------------
(* How a module name is resolved: the import system of Python for the file  *)
(* tree and search path of a world, and what the node for a name looks like.*)
(*                                                                          *)
(* World (W):                                                               *)
(*   path     sequence of locations (directories or zip archives)           *)
(*   locs     location |-> entries [stem, kind, body, file] in it;           *)
(*            kinds: so py pyc (modules), data (anything else), dir          *)
(*   bodies   sequence of module bodies (see Scan), with bad, exec, ns       *)
(*   builtin  names of built-in modules, frozen [n, pkg, body]               *)
(*   sysalias names in sys.modules for other modules: [n, to]               *)
(*   dists    installed distributions in search order [id, name, files, mods]*)
EXTENDS Scan

Join(loc, stem) == loc \o "/" \o stem
Stem(name) == name[Len(name)]
ParentOf(name) == SubSeq(name, 1, Len(name) - 1)
StrPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p     \* proper prefix of names

IsLoc(W, loc) == loc \in DOMAIN W.locs
Entries(W, loc, stem) == IF IsLoc(W, loc) THEN {e \in Rng(W.locs[loc]) : e.stem = stem} ELSE {}

KindRank(k) == CASE k = "so" -> 1 [] k = "py" -> 2 [] k = "pyc" -> 3
Best(es) == CHOOSE e \in es : \A f \in es : KindRank(e.kind) <= KindRank(f.kind)
ModEntries(W, loc, stem) == {e \in Entries(W, loc, stem) : e.kind \in {"so", "py", "pyc"}}

NoEntry == [stem |-> "", kind |-> "", body |-> 0, file |-> ""]
None == [k |-> "none", n |-> <<>>, e |-> NoEntry, search |-> <<>>, loc |-> "", body |-> 0]

\* Look for STEM in one location.
FindAt(W, loc, stem, name) ==
    LET sub == Join(loc, stem)
        init == ModEntries(W, sub, "__init__")
        mods == ModEntries(W, loc, stem)
    IN IF IsLoc(W, sub) /\ init # {}
       THEN [None EXCEPT !.k = "pkg", !.n = name, !.e = Best(init), !.search = <<sub>>, !.loc = sub]
       ELSE IF IsLoc(W, loc) /\ mods # {}
       THEN [None EXCEPT !.k = "mod", !.n = name, !.e = Best(mods), !.loc = loc]
       ELSE IF IsLoc(W, sub)
       THEN [None EXCEPT !.k = "ns", !.n = name, !.search = <<sub>>]
       ELSE None

\* Look along a search path: the first package or module, otherwise all
\* namespace portions.
FindOn(W, locs, stem, name) ==
    LET r == [i \in DOMAIN locs |-> FindAt(W, locs[i], stem, name)]
        real == FirstIdx(r, LAMBDA x : x.k \in {"pkg", "mod"})
        nss == SelectSeq(r, LAMBDA x : x.k = "ns")
    IN IF real # 0 THEN r[real]
       ELSE IF nss # <<>>
       THEN [None EXCEPT !.k = "ns", !.n = name, !.search = Concat([i \in DOMAIN nss |-> nss[i].search])]
       ELSE None

BodyOf(W, r) == W.bodies[r.e.body]

\* Does importing this module succeed (at least far enough for submodules to
\* be looked up along its own idea of a search path)?
Raises(W, r) ==
    /\ r.k \in {"pkg", "mod"}
    /\ \/ r.e.kind = "so"
       \/ /\ r.e.kind \in {"py", "pyc"}
          /\ LET b == BodyOf(W, r) IN b.bad # "" \/ b.exec # "ok"

\* The search path of a package that uses pkgutil.extend_path: its own
\* directory and those in the other entries of the search path (that of the
\* parent package for a subpackage).
RECURSIVE Resolve(_, _)
RECURSIVE PkgSearch(_, _)
Extended(W, r) ==
    LET own == r.search
        base == IF Len(r.n) = 1 THEN W.path
                ELSE LET p == Resolve(W, ParentOf(r.n)) IN IF p.k = "pkg" THEN PkgSearch(W, p) ELSE p.search
        other == Concat([i \in DOMAIN base |->
                    LET x == FindAt(W, base[i], Stem(r.n), r.n)
                    IN IF x.k \in {"pkg", "ns"} THEN SelectSeq(x.search, LAMBDA l : l \notin Rng(own))
                       ELSE <<>>])
    IN own \o other

PkgSearch(W, r) ==
    IF r.k = "pkg" /\ r.e.kind = "py" /\ BodyOf(W, r).ns = "pkgutil" /\ ~Raises(W, r)
    THEN Extended(W, r)
    ELSE r.search

Resolve(W, name) ==
    LET al == {a \in Rng(W.sysalias) : a.n = name} IN
    IF al # {} THEN Resolve(W, (CHOOSE a \in al : TRUE).to)
    ELSE IF Len(name) = 1 /\ name[1] \in Rng(W.builtin)
    THEN [None EXCEPT !.k = "builtin", !.n = name]
    ELSE IF \E f \in Rng(W.frozen) : f.n = name
    THEN LET f == CHOOSE x \in Rng(W.frozen) : x.n = name
         IN [None EXCEPT !.k = IF f.pkg THEN "frozenpkg" ELSE "frozen", !.n = name, !.body = f.body,
                        !.search = f.search]
    ELSE IF Len(name) = 1
    THEN FindOn(W, W.path, name[1], name)
    ELSE LET p == Resolve(W, ParentOf(name))
         IN IF p.k = "ns" THEN FindOn(W, p.search, Stem(name), name)
            ELSE IF p.k = "pkg" THEN FindOn(W, PkgSearch(W, p), Stem(name), name)
            ELSE None

-----------------------------------------------------------------------------
(* Nodes.                                                                   *)

\* Data files: anything that is not a module, at any depth.
IgnoredDirs == {"__pycache__", ".git", ".hg", ".svn"}
RECURSIVE HasData(_, _)
HasData(W, loc) ==
    /\ IsLoc(W, loc)
    /\ \/ \E e \in Rng(W.locs[loc]) : e.kind = "data" /\ e.stem \notin IgnoredDirs
       \/ \E e \in Rng(W.locs[loc]) : e.kind = "dir" /\ e.stem \notin IgnoredDirs
                                      /\ HasData(W, Join(loc, e.stem))

\* The first distribution that contains the file.
DistOf(W, file) ==
    LET i == FirstIdx(W.dists, LAMBDA d : file \in Rng(d.files))
    IN IF file = "" \/ i = 0 THEN "" ELSE W.dists[i].id

BlankNode == [cls |-> "", file |-> "", search |-> <<>>, data |-> FALSE, ns |-> "",
              dist |-> "", init |-> "", gw |-> {}, gr |-> {}, to |-> <<>>,
              scanned |-> "", body |-> 0]

\* Class of the node for a module file
ModClass(W, e) ==
    IF e.kind = "so" THEN "ExtensionModule"
    ELSE IF W.bodies[e.body].bad # "" THEN "InvalidModule"
    ELSE IF e.kind = "py" THEN "SourceModule" ELSE "BytecodeModule"

HasCode(cls) == cls \in {"SourceModule", "BytecodeModule", "FrozenModule"}

\* Which scanner gives the imports of a module file ("" for none)
Scanner(W, e) ==
    IF e.kind = "so" THEN ""
    ELSE LET b == W.bodies[e.body].bad IN
         IF e.kind = "pyc" THEN (IF b = "" THEN "code" ELSE "")
         ELSE IF b \in {"", "sem"} THEN "ast" ELSE ""

ImportsOf(W, nd) ==
    CASE nd.scanned = "ast" -> AstInfos(W, W.bodies[nd.body])
      [] nd.scanned = "code" -> BytecodeInfos(W, W.bodies[nd.body])
      [] OTHER -> <<>>

NodeFor(W, r) ==
    CASE r.k = "builtin" -> [BlankNode EXCEPT !.cls = "BuiltinModule"]
      [] r.k = "frozen" ->
           [BlankNode EXCEPT !.cls = "FrozenModule", !.gw = GlobalsWritten(W.bodies[r.body]),
                             !.gr = GlobalsRead(W.bodies[r.body]), !.scanned = "code", !.body = r.body]
      [] r.k = "frozenpkg" ->
           [BlankNode EXCEPT !.cls = "FrozenPackage", !.init = "FrozenModule", !.search = r.search,
                             !.gw = GlobalsWritten(W.bodies[r.body]),
                             !.gr = GlobalsRead(W.bodies[r.body]), !.scanned = "code", !.body = r.body]
      [] r.k = "ns" -> [BlankNode EXCEPT !.cls = "NamespacePackage", !.search = r.search]
      [] r.k \in {"mod", "pkg"} ->
           LET cls == ModClass(W, r.e)
               ok == HasCode(cls)
               b == IF r.e.body = 0 THEN [ss |-> <<>>, bad |-> "", ns |-> ""] ELSE W.bodies[r.e.body]
               base == [BlankNode EXCEPT
                          !.cls = cls,
                          !.file = r.e.file,
                          !.dist = DistOf(W, r.e.file),
                          !.gw = IF ok THEN GlobalsWritten(b) ELSE {},
                          !.gr = IF ok THEN GlobalsRead(b) ELSE {},
                          !.scanned = Scanner(W, r.e),
                          !.body = r.e.body]
               \* Source that cannot be decoded is not recognised as a package.
               plain == r.k = "mod" \/ (r.e.kind = "py" /\ b.bad = "enc")
               ns == IF r.e.kind = "py" /\ ok THEN b.ns ELSE ""
           IN IF plain THEN base
              ELSE [base EXCEPT !.cls = "Package", !.init = cls, !.file = r.loc,
                                !.search = PkgSearch(W, r),
                                !.data = HasData(W, r.loc), !.ns = ns]

PkgCls == {"Package", "FrozenPackage"}
ModCls == {"SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule",
           "FrozenModule", "InvalidModule"}
=============================================================================
