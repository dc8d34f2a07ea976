------------------------------- MODULE Output -------------------------------
(* What the text, HTML and Graphviz reports of a graph have to say.         *)
(*                                                                          *)
(* A graph (G) as shown by the public API:                                  *)
(*   nodes  sequence of [id, name, cls, file, dist, isdist]                  *)
(*   edges  sequence of [s, d, opt]: opt has one boolean per import          *)
(*   roots  sequence of identifiers                                         *)
EXTENDS Util

Ids(G) == {x.id : x \in Rng(G.nodes)}
NodeById(G, i) == CHOOSE x \in Rng(G.nodes) : x.id = i
Succ(G, S) == {e.d : e \in {e \in Rng(G.edges) : e.s \in S}}

RECURSIVE Closure(_, _, _)
Closure(G, S, F) ==
    IF F = {} THEN S ELSE LET nx == Succ(G, F) \ S IN Closure(G, S \cup nx, nx)
Reached(G) == Closure(G, Rng(G.roots), Rng(G.roots))

\* Reachable nodes that are modules, in the order of their names
Listed(G, rk) == SortBy({i \in Reached(G) : ~NodeById(G, i).isdist}, LAMBDA i : rk[i])

-----------------------------------------------------------------------------
(* Text: one line per node.                                                 *)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = " " THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
After(s, p) == SubSeq(s, Len(p) + 1, Len(s))

\* LINE has the class, the name and the filename, separated by spaces
LineFor(line, x) ==
    /\ StrStartsWith(line, x.cls \o " ")
    /\ LET r1 == TrimL(After(line, x.cls)) IN
       /\ StrStartsWith(r1, x.id)
       /\ LET r2 == After(r1, x.id) IN
          IF x.file = "" THEN TrimL(r2) = ""
          ELSE StrStartsWith(r2, " ") /\ TrimL(r2) = x.file

TextFails(G, rk, rows) ==
    LET want == Listed(G, rk) IN
    IF Len(want) # Len(rows) THEN {<<"text-rows", ToString(Len(want)), ToString(Len(rows)) >>}
    ELSE {<<"text-row", want[i], rows[i]>> : i \in {i \in DOMAIN want : ~LineFor(rows[i], NodeById(G, want[i]))}}

-----------------------------------------------------------------------------
(* HTML: one section per node: [a, h, dep, use], the last two are sequences  *)
(* of <<target, text>>.                                                     *)
Links(G, ids) == {<<i, NodeById(G, i).name>> : i \in ids}
Preds(G, i) == {e.s : e \in {e \in Rng(G.edges) : e.d = i}}

HtmlFails(G, rk, doc) ==
    LET want == Listed(G, rk)
        reach == Reached(G)
        secs == doc.sections
        one(i) ==
            LET s == secs[i]
                n == want[i]
                dep == Links(G, Succ(G, {n}))
                use == Links(G, Preds(G, n) \cap reach)
            IN  {<<"html-anchor", n, s.a>> : q \in {q \in {1} : s.a # n}}
           \cup {<<"html-heading", n, s.h>> : q \in {q \in {1} : s.h # NodeById(G, n).cls \o " " \o NodeById(G, n).name}}
           \cup {<<"html-depends", n, l>> : l \in (dep \ Rng(s.dep)) \cup (Rng(s.dep) \ dep)}
           \cup {<<"html-depends-twice", n, s.dep>> : q \in {q \in {1} : Len(s.dep) # Cardinality(Rng(s.dep))}}
           \cup {<<"html-usedby", n, l>> : l \in (use \ Rng(s.use)) \cup (Rng(s.use) \ use)}
           \cup {<<"html-usedby-twice", n, s.use>> : q \in {q \in {1} : Len(s.use) # Cardinality(Rng(s.use))}}
        anchors == {s.a : s \in Rng(secs)}
    IN (IF Len(want) # Len(secs) THEN {<<"html-sections", ToString(Len(want)), ToString(Len(secs))>>}
        ELSE UNION {one(i) : i \in DOMAIN want})
       \cup {<<"html-dangling", s.a, l[1]>> : s \in Rng(secs), l \in UNION {{x \in Rng(s2.dep) \cup Rng(s2.use) :
                 x[1] \notin anchors /\ x[1] \in Ids(G) /\ ~NodeById(G, x[1]).isdist} : s2 \in Rng(secs)}}
       \cup {<<"html-odd", x, "">> : x \in Rng(doc.odd)}

-----------------------------------------------------------------------------
(* Graphviz: node and edge statements with attributes, and clusters.        *)
Value(attrs, k) == LET c == {a \in Rng(attrs) : a[1] = k} IN IF c = {} THEN "" ELSE (CHOOSE a \in c : TRUE)[2]

DotFails(G, doc) ==
    LET reach == Reached(G)
        edges == {e \in Rng(G.edges) : e.s \in reach}
        got == [i \in DOMAIN doc.nodes |-> doc.nodes[i].id]
        gotE == [i \in DOMAIN doc.edges |-> <<doc.edges[i].s, doc.edges[i].d>>]
        wantE == {<<e.s, e.d>> : e \in edges}
        isRoot(i) == i \in Rng(G.roots)
        edge(p) == CHOOSE e \in edges : e.s = p[1] /\ e.d = p[2]
        dashed(e) == \A i \in DOMAIN e.opt : e.opt[i]
        dists == {NodeById(G, i).dist : i \in {i \in reach : ~NodeById(G, i).isdist}} \ {""}
        members(d) == {i \in reach : ~NodeById(G, i).isdist /\ NodeById(G, i).dist = d}
    IN  {<<"dot-node-missing", i, "">> : i \in reach \ Rng(got)}
   \cup {<<"dot-node-extra", i, "">> : i \in Rng(got) \ reach}
   \cup {<<"dot-node-twice", "", "">> : q \in {q \in {1} : Len(got) # Cardinality(Rng(got))}}
   \cup {<<"dot-edge-missing", p[1], p[2]>> : p \in wantE \ Rng(gotE)}
   \cup {<<"dot-edge-extra", p[1], p[2]>> : p \in Rng(gotE) \ wantE}
   \cup {<<"dot-edge-twice", "", "">> : q \in {q \in {1} : Len(gotE) # Cardinality(Rng(gotE))}}
   \cup {<<"dot-root", x.id, x.attrs>> : x \in {x \in Rng(doc.nodes) : x.id \in reach /\
            \/ (Value(x.attrs, "root") = "true") # isRoot(x.id)
            \/ (Value(x.attrs, "penwidth") # "") # isRoot(x.id)}}
   \cup {<<"dot-dashed", x.s, x.d>> : x \in {x \in Rng(doc.edges) : <<x.s, x.d>> \in wantE /\
            (Value(x.attrs, "style") = "dashed") # dashed(edge(<<x.s, x.d>>))}}
   \cup {<<"dot-arrow", x.s, x.d>> : x \in {x \in Rng(doc.edges) : <<x.s, x.d>> \in wantE /\
            (Value(x.attrs, "arrowhead") = "none") # StrStartsWith(x.s, x.d \o ".")}}
   \cup {<<"dot-cluster", d, "">> : d \in {d \in dists : ~\E c \in Rng(doc.clusters) :
            c.label = d /\ Rng(c.ids) = members(d) /\ Len(c.ids) = Cardinality(members(d))}}
   \cup {<<"dot-clusters", ToString(Cardinality(dists)), ToString(Len(doc.clusters))>> :
            q \in {q \in {1} : Len(doc.clusters) # Cardinality(dists)}}
   \cup {<<"dot-odd", x, "">> : x \in Rng(doc.odd)}
=============================================================================
