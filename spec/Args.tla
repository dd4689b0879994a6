-------------------------------- MODULE Args --------------------------------
(* The command line: a machine that reads the arguments from left to right. The last argument is always the main file,   *)
(* unless it asks for the help or the version. An option with an optional argument takes the following argument unless   *)
(* that is an option itself. The first argument that ends the reading (help, version, a fault) decides.                  *)
EXTENDS Naturals, Sequences, FiniteSets
Flags == {"-help", "-version", "-debug", "-add-timestamp"}
Params == {"-main", "-c"}
Options == Flags \cup Params
ConstsDefault == "const.json"

(* mode: "free" any option; "name" the name of the bus must follow; "path" the path of the constants file may follow; "end" *)
(* open: an argument whose meaning the documentation leaves open was read *)
Start == [mode |-> "free", main |-> "main", c |-> "", ts |-> FALSE, debug |-> FALSE, file |-> "", out |-> "", open |-> FALSE]
End(s, o) == [s EXCEPT !.mode = "end", !.out = o]
Option(s, a) ==
  CASE a = "-help" -> End(s, "help")
    [] a = "-version" -> End(s, "version")
    [] a = "-debug" -> [s EXCEPT !.mode = "free", !.debug = TRUE]
    [] a = "-add-timestamp" -> [s EXCEPT !.mode = "free", !.ts = TRUE]
    [] a = "-main" -> [s EXCEPT !.mode = "name"]
    [] a = "-c" -> [s EXCEPT !.mode = "path", !.c = ConstsDefault]
    [] OTHER -> End(s, "error")
Read(s, a, dash) ==      \* dash: a begins with "-"
  CASE s.mode = "end" -> s
    [] s.mode = "name" -> [s EXCEPT !.mode = "free", !.main = a, !.open = s.open \/ dash]
    [] s.mode = "path" /\ a \notin Options -> [s EXCEPT !.mode = "free", !.c = a, !.open = s.open \/ dash]
    [] OTHER -> Option(s, a)
Last(s, a, dash) ==
  CASE s.mode = "end" -> s
    [] a \in {"-help", "-version"} -> [Option(s, a) EXCEPT !.open = s.open \/ s.mode = "name"]
    [] s.mode = "name" -> End(s, "error")        \* the name of the bus or the file is missing
    [] OTHER -> [End(s, "compile") EXCEPT !.file = a, !.open = s.open \/ dash]
RECURSIVE Fold(_, _, _, _)
Fold(s, as, n, D) == IF n = 0 THEN End(s, "error")              \* no arguments at all
                     ELSE IF n = 1 THEN Last(s, as[Len(as)], as[Len(as)] \in D)
                     ELSE Fold(Read(s, as[Len(as) - n + 1], as[Len(as) - n + 1] \in D), as, n - 1, D)
Parse(as, D) == Fold(Start, as, Len(as), D)                      \* D: the arguments that begin with "-"

(* What a run shows. kind: "good" a description with the buses Buses, "bad" a faulty one, "missing" no such file *)
Expect(s, kind, buses, unwritable) ==
  CASE s.out \in {"help", "version"} -> [rc |-> 0, out |-> s.out, bus |-> "", created |-> {}]
    [] s.out = "error" \/ kind # "good" \/ s.main \notin buses -> [rc |-> 1, out |-> "", bus |-> "", created |-> {}]
    [] s.c \in unwritable -> [rc |-> 1, out |-> "", bus |-> "", created |-> {}]
    [] OTHER -> [rc |-> 0, out |-> "json", bus |-> s.main, created |-> IF s.c = "" THEN {} ELSE {s.c}]

(* ---------------------------- the declarative reading ---------------------------- *)
(* A command line is a sequence of option groups and a file. *)
Groups == { <<"-debug">>, <<"-add-timestamp">>, <<"-main", "Alt">>, <<"-main", "Main">>, <<"-c">>, <<"-c", "x.json">>, <<"-c", "old.json">>, <<"-c", "none/x.json">>,
            <<"-help">>, <<"-version">>, <<"-bogus">>, <<"word">> }
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))
Ends(gs) == {k \in DOMAIN gs : gs[k] \in {<<"-help">>, <<"-version">>, <<"-bogus">>}
                               \/ (gs[k] = <<"word">> /\ ~(k > 1 /\ gs[k - 1] = <<"-c">>))}
FirstOf(S) == CHOOSE k \in S : \A j \in S : k <= j
LastOf(S) == CHOOSE k \in S : \A j \in S : k >= j
Declared(gs, file) ==
  IF Ends(gs) # {} THEN [out |-> LET g == gs[FirstOf(Ends(gs))] IN IF g = <<"-help">> THEN "help" ELSE IF g = <<"-version">> THEN "version" ELSE "error"]
  ELSE LET has(g) == \E k \in DOMAIN gs : gs[k] = g
           ms == {k \in DOMAIN gs : gs[k][1] = "-main"}
           cs == {k \in DOMAIN gs : gs[k][1] = "-c"}
           c == LastOf(cs)
       IN  [out |-> "compile", debug |-> has(<<"-debug">>), ts |-> has(<<"-add-timestamp">>), file |-> file,
            main |-> IF ms = {} THEN "main" ELSE gs[LastOf(ms)][2],
            c |-> IF cs = {} THEN "" ELSE IF Len(gs[c]) = 2 THEN gs[c][2]
                  ELSE IF c < Len(gs) /\ gs[c + 1] = <<"word">> THEN "word" ELSE ConstsDefault]
=============================================================================
