-------------------------------- MODULE Cli --------------------------------
(* The command line: what a sequence of arguments means.                    *)
EXTENDS Util

NoArgs == [type |-> "module", format |-> "html", excl |-> <<>>, path |-> <<>>, out |-> "",
           names |-> <<>>, err |-> FALSE, help |-> FALSE, groups |-> 0, open |-> FALSE]
Wrong(c) == [c EXCEPT !.err = TRUE]

Formats == {"html", "dot"}
StdlibMark == "<stdlib>"

\* An option without a value
Flag(c, o) ==
    CASE o \in {"-m", "--module"} -> [c EXCEPT !.type = "module"]
      [] o \in {"-s", "--script"} -> [c EXCEPT !.type = "script"]
      [] o \in {"-d", "--distribution"} -> [c EXCEPT !.type = "distribution"]
      [] o = "--exclude-stdlib" -> [c EXCEPT !.excl = Append(@, StdlibMark)]
      [] o \in {"-h", "--help"} -> [c EXCEPT !.help = TRUE]
Flags == {"-m", "--module", "-s", "--script", "-d", "--distribution", "--exclude-stdlib", "-h", "--help"}

\* An option with a value
Option(c, o, v) ==
    CASE o \in {"-f", "--format"} -> IF v \in Formats THEN [c EXCEPT !.format = v] ELSE Wrong(c)
      [] o \in {"-x", "--exclude"} -> [c EXCEPT !.excl = Append(@, v)]
      [] o \in {"-p", "--path"} -> [c EXCEPT !.path = Append(@, v)]
      [] o \in {"-o", "--output"} -> [c EXCEPT !.out = v]
Options == {"-f", "--format", "-x", "--exclude", "-p", "--path", "-o", "--output"}

IsOption(t) == Len(t) > 1 /\ SubSeq(t, 1, 1) = "-"
IsLong(t) == StrStartsWith(t, "--")

RECURSIVE EqAt(_, _)
EqAt(t, i) == IF i > Len(t) THEN 0 ELSE IF SubSeq(t, i, i) = "=" THEN i ELSE EqAt(t, i + 1)

RECURSIVE Parse(_, _)
\* The letters S of a cluster of short options, REST are the arguments after it
RECURSIVE Cluster(_, _, _)
Cluster(c, s, rest) ==
    IF s = "" THEN Parse(c, rest)
    ELSE LET o == "-" \o SubSeq(s, 1, 1)
             tail == SubSeq(s, 2, Len(s)) IN
         IF o \in Flags
         THEN LET d == Flag(c, o) IN IF d.help THEN d ELSE Cluster(d, tail, rest)
         ELSE IF o \notin Options THEN Wrong(c)
         ELSE IF tail # ""
         THEN Parse(Option(c, o, IF SubSeq(tail, 1, 1) = "=" THEN SubSeq(tail, 2, Len(tail)) ELSE tail), rest)
         ELSE IF rest = <<>> \/ IsOption(Head(rest)) THEN Wrong(c)
         ELSE Parse(Option(c, o, Head(rest)), Tail(rest))

Name(c, t) == [c EXCEPT !.names = Append(@, t), !.open = TRUE,
                        !.groups = IF c.open THEN @ ELSE @ + 1]

Parse(c0, argv) ==
    IF c0.err \/ c0.help THEN c0
    ELSE IF argv = <<>> THEN c0
    ELSE LET t == Head(argv)
             rest == Tail(argv)
             c == [c0 EXCEPT !.open = FALSE]
         IN
         IF t = "--" THEN FoldLeft(Name, c0, rest)
         ELSE IF ~IsOption(t) THEN Parse(Name(c0, t), rest)
         ELSE IF ~IsLong(t) THEN Cluster(c, SubSeq(t, 2, Len(t)), rest)
         ELSE LET k == EqAt(t, 1)
                  o == IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
                  v == IF k = 0 THEN "" ELSE SubSeq(t, k + 1, Len(t))
              IN IF o \in Flags THEN (IF k # 0 THEN Wrong(c) ELSE Parse(Flag(c, o), rest))
                 ELSE IF o \notin Options THEN Wrong(c)
                 ELSE IF k # 0 THEN Parse(Option(c, o, v), rest)
                 ELSE IF rest = <<>> \/ IsOption(Head(rest)) THEN Wrong(c)
                 ELSE Parse(Option(c, o, Head(rest)), Tail(rest))

\* The meaning of a command line.  Names in more than one group are not
\* covered (argparse refuses them).
Meaning(argv) ==
    LET c == Parse(NoArgs, argv)
    IN IF c.help THEN [c EXCEPT !.err = FALSE]
       ELSE IF c.names = <<>> THEN Wrong(c) ELSE c

\* The module search path while the graph is built
SearchPath(c, path) == c.path \o path
=============================================================================
