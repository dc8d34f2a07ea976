-------------------------------- MODULE Scale --------------------------------
(* Patterns of projects of any size, and the graph each of them gives, in   *)
(* closed form.  At small sizes the same projects are also decided by the   *)
(* transition system of ModuleGraph; here the size does not matter.         *)
(*                                                                          *)
(* A pattern has a size n and is stored as source or as compiled code.      *)
EXTENDS Util

I(p, i) == <<p \o ToString(i)>>
Deep(i) == [k \in 1 .. i |-> "p"]

P == <<FALSE, TRUE, FALSE, "">>           \* a plain import
FL == <<FALSE, TRUE, TRUE, "">>           \* a name in a from-import
Def == <<TRUE, FALSE, FALSE, "">>         \* in a function
DefFL == <<TRUE, FALSE, TRUE, "">>
Cond(code) == <<~code, TRUE, FALSE, "">>  \* conditional, which compiled code does not tell
M == <<"m">>
Y == <<"y">>
Z == <<"z">>
Pk == <<"p">>

G(nodes, edges) == [nodes |-> nodes, edges |-> edges, roots |-> {M}, names |-> {}, dists |-> {}]
Kinds(S, cls) == {<<x, cls>> : x \in S}
Ks(n) == {I("k", i) : i \in 0 .. n - 1}
Ms(n) == {I("m", i) : i \in 0 .. n - 1}

Graph(f, n, code) ==
    LET K == IF code THEN "BytecodeModule" ELSE "SourceModule"
        m0 == {I("m", 0)}
        next == {<<I("m", i), I("m", i + 1), P>> : i \in 0 .. n - 2}
        ksMissing(a) == G({<<M, K>>} \cup Kinds(Ks(n), "MissingModule"), {<<M, k, a>> : k \in Ks(n)})
        zOnly(a) == G({<<M, K>>, <<Z, "MissingModule">>}, {<<M, Z, a>>})
        yz(a) == G({<<M, K>>, <<Z, "MissingModule">>, <<Y, "MissingModule">>}, {<<M, Z, a>>, <<M, Y, a>>})
    IN
    CASE f = "chain" -> [G(Kinds(Ms(n), K), next) EXCEPT !.roots = m0]
      [] f = "ring" -> [G(Kinds(Ms(n), K), {<<I("m", i), I("m", (i + 1) % n), P>> : i \in 0 .. n - 1}) EXCEPT !.roots = m0]
      [] f = "fan" -> G({<<M, K>>} \cup Kinds(Ks(n), K), {<<M, k, P>> : k \in Ks(n)})
      [] f \in {"missing", "onestatement", "longline", "nestedclasses", "cases", "comprehension"} -> ksMissing(P)
      [] f \in {"elifs", "nestedifs", "nestedtry", "handlers"} -> ksMissing(Cond(code))
      [] f \in {"functions", "nestedfunctions", "methods"} -> ksMissing(Def)
      [] f \in {"sum", "attributes", "calls", "list", "blanklines", "parameters", "strings"} -> zOnly(P)
      [] f = "names" -> [yz(P) EXCEPT !.names = {"v" \o ToString(i) : i \in 0 .. n - 1} \cup {"z", "a", "b"}]
      [] f = "constants" -> yz(Def)
      [] f = "fromfan" ->
           LET sub(k) == <<"p", k[1]>> IN
           G({<<M, K>>, <<Pk, "Package">>} \cup {<<sub(k), K>> : k \in Ks(n)},
             {<<M, Pk, P>>} \cup {<<M, sub(k), FL>> : k \in Ks(n)} \cup {<<sub(k), Pk, P>> : k \in Ks(n)})
      [] f = "fromvariables" -> G({<<M, K>>, <<Y, K>>}, {<<M, Y, P>>})
      [] f = "deep" ->
           [G({<<Deep(i), "Package">> : i \in 1 .. n}, {<<Deep(i + 1), Deep(i), P>> : i \in 1 .. n - 1}) EXCEPT !.roots = {Deep(n)}]
      [] f = "deepmissing" ->
           [G({<<Deep(i), "MissingModule">> : i \in 1 .. n}, {<<Deep(i + 1), Deep(i), P>> : i \in 1 .. n - 1}) EXCEPT !.roots = {Deep(n)}]
      [] f = "deeprelative" ->
           \* every package has "from . import p"
           [G({<<Deep(i), "Package">> : i \in 1 .. n},
              UNION {{<<Deep(i + 1), Deep(i), P>>, <<Deep(i), Deep(i), P>>, <<Deep(i), Deep(i + 1), FL>>} : i \in 1 .. n - 1})
            EXCEPT !.roots = {Deep(1)}]
      [] f = "dots" ->
           LET inv == <<Dots(n + 1), "x">> pm == <<"p", "m">> IN
           [G({<<Pk, "Package">>, <<pm, K>>, <<inv, "InvalidRelativeImport">>}, {<<pm, Pk, P>>, <<pm, inv, P>>}) EXCEPT !.roots = {pm}]
      [] f = "reexports" ->
           [G(Kinds(Ms(n), K) \cup {<<Z, "MissingModule">>},
              next \cup {<<I("m", i), Z, FL>> : i \in 0 .. n - 2} \cup {<<I("m", n - 1), Z, P>>}) EXCEPT !.roots = m0]
      [] f = "stars" ->
           [G(Kinds(Ms(n), K), next) EXCEPT !.roots = m0, !.names = {"w" \o ToString(i) : i \in 0 .. n - 1}]
      [] f = "packages" ->
           LET s(i) == I("m", i) \o <<"s">> IN
           [G(Kinds(Ms(n), "Package") \cup {<<s(i), K>> : i \in 1 .. n - 1},
              UNION {{<<I("m", i), s(i + 1), P>>, <<s(i + 1), I("m", i + 1), P>>} : i \in 0 .. n - 2}) EXCEPT !.roots = m0]
      [] f = "renames" ->
           G({<<M, K>>, <<Z, "MissingModule">>}, {<<M, Z, IF code THEN P ELSE <<FALSE, TRUE, FALSE, "a" \o ToString(i)>>>> : i \in 0 .. n - 1})
      [] f = "roots" -> [G(Kinds(Ks(n), K), {}) EXCEPT !.roots = Ks(n)]
      [] f = "scripts" -> [G({<<I("$R/bin/s", i), "Script">> : i \in 0 .. n - 1}, {}) EXCEPT !.roots = {I("$R/bin/s", i) : i \in 0 .. n - 1}]
      [] f = "source" -> [G(Kinds(Ks(n), "MissingModule"), {}) EXCEPT !.roots = Ks(n)]
      [] f = "implies" -> G({<<M, K>>} \cup Kinds(Ks(n), "MissingModule"), {<<M, k, P>> : k \in Ks(n)})
      [] f = "excludes" -> G({<<M, K>>} \cup Kinds(Ks(n), "ExcludedModule"), {<<M, k, P>> : k \in Ks(n)})
      [] f = "wholepackage" ->
           LET kids == {<<"p", k[1]>> : k \in Ks(n)} subs == {<<"p", "s" \o ToString(i)>> : i \in 0 .. n - 1} IN
           G({<<M, K>>, <<Pk, "Package">>} \cup Kinds(kids, K) \cup Kinds(subs, "Package"),
             {<<M, Pk, P>>} \cup {<<Pk, x, P>> : x \in kids \cup subs} \cup {<<x, Pk, P>> : x \in kids \cup subs})
      [] f = "entries" -> G({<<M, K>>} \cup Kinds(Ks(n), K), {<<M, k, P>> : k \in Ks(n)})
      [] f = "distributions" ->
           [G({<<M, K>>} \cup Kinds(Ks(n), K), {<<M, k, P>> : k \in Ks(n)})
              EXCEPT !.dists = {"$R/p0/d" \o ToString(i) \o "-1.dist-info" : i \in 0 .. n - 1}]
=============================================================================
