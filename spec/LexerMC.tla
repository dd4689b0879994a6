------------------------------ MODULE LexerMC ------------------------------
(* All texts made of a few chunks, with what the lexical rules and the grammar must guarantee on each of them: tokens *)
(* are where they claim to be and cover the text, the layout rules say exactly which lines are malformed, and adding  *)
(* blank lines, comments and spaces between tokens changes nothing.                                                   *)
EXTENDS Grammar, FiniteSets, Json
CONSTANTS MODE, MAXC, EMIT
(* the chunks; words of the grammar modes are followed by a space *)
PRE == CASE MODE = "layout" -> <<>> [] MODE = "deep" -> <<"a", " ", "b", "u", "s", "\n", " ", " ", "a", " ", "b", "u", "s", "\n", " ", " ", " ", " ", "a", " ", "b", "u", "s">> [] MODE = "words" -> <<"M", " ", "b", "u", "s", "\n", " ", " ">> [] MODE = "literals" -> <<"c", "o", "n", "s", "t", " ", "A", "=">> [] MODE = "grammar" -> <<"M", " ">> [] MODE = "body" -> <<"M", " ", "b", "u", "s", "\n", " ", " ">> [] MODE = "value" -> <<"c", "o", "n", "s", "t", " ", "A", " ", "=", " ">> [] MODE = "types" -> <<"t", "y", "p", "e", " ", "T">>
CHUNKS == CASE MODE = "layout" -> {<<"a">>, <<" ">>, <<"\n">>, <<"#">>, <<";">>, <<"\t">>, <<" ", " ">>}
            [] MODE = "deep" -> {<<" ">>, <<"\n">>, <<" ", " ">>, <<"a">>, <<"#", "b">>, <<"\n", " ", " ", " ", " ">>, <<"a", " ", "b", "u", "s">>}
            [] MODE = "words" -> {<<"a">>, <<"s", "i", "z", "e">>, <<"i", "n", "i", "t", "-", "v", "a", "l", "u", "e">>, <<"i", "r", "q">>, <<"-">>, <<"1">>, <<"0">>, <<"x">>, <<".">>, <<"\"">>, <<"b">>, <<" ">>, <<"=">>, <<";">>, <<"\n", " ", " ">>, <<"s">>}
            [] MODE = "literals" -> {<<"0">>, <<"1">>, <<"x">>, <<"b">>, <<"o">>, <<"8">>, <<".">>, <<"e">>, <<"\"">>, <<"-">>, <<" ">>, <<"s">>, <<"n", "s">>, <<"\n">>, <<")">>}
            [] MODE = "grammar" -> {<<"b", "u", "s", " ">>, <<"c", "o", "n", "f", "i", "g", " ">>, <<"a", " ">>, <<"c", "o", "n", "s", "t", " ">>, <<"t", "y", "p", "e", " ">>, <<"i", "m", "p", "o", "r", "t", " ">>, <<"=">>, <<"1", " ">>, <<";">>, <<"w", "i", "d", "t", "h", " ">>, <<"\n">>, <<"\n", " ", " ">>, <<"(">>, <<")">>, <<"[">>, <<"]">>, <<",">>, <<"#", "c", "\n">>, <<"\"", "p", "\"">>, <<"+">>, <<"!">>}
            [] MODE = "body" -> {<<"c", "o", "n", "f", "i", "g", " ">>, <<"a", " ">>, <<"c", "o", "n", "s", "t", " ">>, <<"t", "y", "p", "e", " ">>, <<"=">>, <<"1", " ">>, <<";">>, <<"w", "i", "d", "t", "h", " ">>, <<"\n">>, <<"\n", " ", " ">>, <<"\n", " ", " ", " ", " ">>, <<"(">>, <<")">>, <<"[">>, <<"]">>, <<",">>, <<"b", ".", "c", " ">>, <<"-">>}
            [] MODE = "value" -> {<<"a", " ">>, <<"1", " ">>, <<"(">>, <<")">>, <<"[">>, <<"]">>, <<",">>, <<"+">>, <<"*">>, <<"-">>, <<"!">>, <<":">>, <<"*", "*">>, <<"b", ".", "c", " ">>, <<"t", "r", "u", "e", " ">>, <<"\"", "p", "\"">>, <<"\n">>}
            [] MODE = "types" -> {<<"(">>, <<")">>, <<"a">>, <<"=">>, <<"1">>, <<",">>, <<"[">>, <<"]">>, <<" ", "b", "u", "s">>, <<"b", ".", "c">>, <<"\n">>, <<"\n", " ", " ">>, <<" ">>, <<";">>, <<"w", "i", "d", "t", "h">>, <<"+">>}
VARIABLES x, k, L, P                     \* the text, its tokens and its declarations
Init == x = PRE /\ k = 0 /\ L = Lex(x) /\ P = [err |-> NoErr, N |-> <<>>]
Next == k < MAXC /\ \E c \in CHUNKS : x' = x \o c /\ k' = k + 1 /\ L' = Lex(x') /\ P' = IF L'.err.k # "" THEN [err |-> L'.err, N |-> <<>>] ELSE LET r == ParseTokens(x', L'.T) IN [err |-> r.err, N |-> r.N]
Spec == Init /\ [][Next]_<<x, k, L, P>>

Good == L.err.k = ""
HasStr == \E i \in DOMAIN x : x[i] = "\""
InComment(i) == LET a == LastNl(x, 1, i) IN \E j \in a + 1 .. i : x[j] = "#"      \* of texts without strings
(* tokens carry their own position *)
PosOk(t) == t.l = 1 + Newlines(x, 1, t.s - 1) /\ t.c = t.s - LastNl(x, 1, t.s - 1)
Positions == /\ \A n \in DOMAIN L.T : PosOk(L.T[n]) /\ L.T[n].s <= L.T[n].e + 1
             /\ \A n \in 1 .. Len(L.T) - 1 : L.T[n].k # "ded" => L.T[n].e < L.T[n + 1].s
             /\ L.err.k # "" => PosOk(L.err) /\ L.err.s \in 1 .. Len(x) /\ L.err.e >= L.err.s
             /\ P.err.k # "" => P.err.l = 1 + Newlines(x, 1, P.err.s - 1)
(* every character belongs to a token, a comment or a run of blanks *)
Covered == Good => \A i \in DOMAIN x : x[i] = " " \/ (\E n \in DOMAIN L.T : L.T[n].k # "ded" /\ L.T[n].s <= i /\ i <= L.T[n].e) \/ InComment(i) \/ HasStr
(* the layout rules, line by line *)
LineStarts == {i \in 1 .. Len(x) + 1 : i > 1 /\ x[i - 1] = "\n"} \cup {1}
Indent(i) == RunEnd(x, i, {" "}) - i
NonEmpty == {i \in LineStarts : i <= Len(x) /\ x[i] # "\n"}
(* the level of a line: of the first one 0, whatever blanks it starts with *)
Level(i) == IF i = 1 THEN 0 ELSE Indent(i) \div 2
Prev(i) == LET b == {j \in NonEmpty : j < i} IN IF b = {} THEN 0 ELSE Level(CHOOSE j \in b : \A m \in b : m <= j)
LayoutBad == \/ \E i \in DOMAIN x : x[i] = "\t" /\ ~InComment(i)
             \/ \E i \in DOMAIN x : x[i] = " " /\ Ch(x, i + 1) = "\n" /\ ~InComment(i)
             \/ \E i \in NonEmpty \ {1} : Indent(i) % 2 = 1
             \/ \E i \in NonEmpty \ {1} : Level(i) > Prev(i) + 1
LayoutErrs == {"blanks at line end", "odd indentation", "indentation jump", "tab"}
Layout == ~HasStr => /\ Good => ~LayoutBad
                     /\ L.err.x \in LayoutErrs => LayoutBad
Balance == Good => LET n(kind) == Cardinality({i \in DOMAIN L.T : L.T[i].k = kind})
                   IN  n("ind") - n("ded") = L.ind /\ (~HasStr /\ NonEmpty # {} => L.ind = Level(CHOOSE i \in NonEmpty : \A j \in NonEmpty : j <= i)
                                                                       \/ Ch(x, Len(x)) = "\n")
(* changes of the layout *)
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(x) THEN <<>> ELSE f[i] \o Flat(f, i + 1)
BlankLines == Flat([i \in DOMAIN x |-> IF x[i] = "\n" THEN <<"\n", "\n">> ELSE <<x[i]>>], 1)
Comments == Flat([i \in DOMAIN x |-> IF x[i] = "\n" /\ i > 1 /\ x[i - 1] # "\n" THEN <<" ", "#", "w", ";", "\n">> ELSE <<x[i]>>], 1)
Leading(i) == LET a == LastNl(x, 1, i) IN \A j \in a + 1 .. i : x[j] = " "
Spaces == Flat([i \in DOMAIN x |-> IF x[i] = " " /\ ~Leading(i) THEN <<" ", " ">> ELSE <<x[i]>>], 1)
Same(y) == LET q == Parse(y) IN q.err.k = "" /\ Meaning(q.N) = Meaning(P.N)
NoHash == \A i \in DOMAIN x : x[i] # "#"
Neutral == (NoHash /\ ~HasStr /\ k > 0) => IF P.err.k = "" THEN Same(BlankLines) /\ Same(Comments) /\ Same(Spaces) ELSE Parse(BlankLines).err.k # ""
C13 == Covered /\ Layout /\ Balance /\ Neutral
C19 == Positions
Out == EMIT => PrintT("VF " \o ToJson([x |-> x]))
=============================================================================
