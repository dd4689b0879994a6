------------------------------- MODULE Lexer -------------------------------
(* The lexical rules: from a text (a sequence of characters, one-character strings) to tokens with positions, or *)
(* to the position of the offence. One step (LexStep) consumes one token or one run of blanks. The state st is    *)
(* [i: next character, line, nl: index of the last newline, ind: current indentation level, T: tokens, err].      *)
(* A token is [k: kind, s, e: first and last character, l: line, c: column, x: text].                              *)
EXTENDS Integers, Sequences
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters == Lower \cup Upper
Digits == {"0","1","2","3","4","5","6","7","8","9"}
HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
WordChars == Letters \cup Digits \cup {"_", "-", "."}
AfterNumber == {" ", "\t", "\n", "(", ")", "]", "-", "+", "*", "/", "%", "=", "<", ">", ";", ":", ",", "|", "&"}
Meta == {"-", "u", "U", "w", "W", "x", "X", "z", "Z"}
Properties == {"access", "add-enable", "align", "atomic", "byte-write-enable", "clear", "delay", "enable-init-value", "enable-reset-value",
               "init-value", "in-trigger", "masters", "out-trigger", "range", "read-latency", "read-value", "reset", "reset-value", "size",
               "virtual", "width"}
Functionalities == {"block", "bus", "config", "group", "irq", "mask", "memory", "param", "proc", "return", "static", "status", "stream"}
Operators2 == {"!=", "==", "**", "<=", "<<", ">=", ">>", "&&", "||"}
Ops == {"!=", "==", "**", "<=", "<<", ">=", ">>", "&&", "||", "+", "-", "%", "*", "/", "<", ">", "&", "|", ":"}
Kind1 == [c \in {"!", "=", "(", ")", "[", "]", ",", ";"} |->
          CASE c = "!" -> "neg" [] c = "=" -> "ass" [] c = "(" -> "lp" [] c = ")" -> "rp" [] c = "[" -> "lb" [] c = "]" -> "rb"
            [] c = "," -> "comma" [] c = ";" -> "semi"]

Ch(x, i) == IF i <= Len(x) THEN x[i] ELSE ""
RECURSIVE RunEnd(_, _, _)           \* first index from i whose character is not in S
RunEnd(x, i, S) == IF i <= Len(x) /\ x[i] \in S THEN RunEnd(x, i + 1, S) ELSE i
RECURSIVE Find(_, _, _)             \* first index from i whose character is in S, or Len + 1
Find(x, i, S) == IF i > Len(x) \/ x[i] \in S THEN i ELSE Find(x, i + 1, S)
RECURSIVE FindIn(_, _, _, _)        \* the same, up to j: j + 1 if there is none
FindIn(x, i, j, S) == IF i > j \/ x[i] \in S THEN i ELSE FindIn(x, i + 1, j, S)
RECURSIVE Text(_, _, _)
Text(x, s, e) == IF s > e THEN "" ELSE x[s] \o Text(x, s + 1, e)
RECURSIVE LastNl(_, _, _)           \* last newline in s..e, or 0
LastNl(x, s, e) == IF e < s THEN 0 ELSE IF x[e] = "\n" THEN e ELSE LastNl(x, s, e - 1)
RECURSIVE Newlines(_, _, _)
Newlines(x, s, e) == IF s > e THEN 0 ELSE (IF x[s] = "\n" THEN 1 ELSE 0) + Newlines(x, s + 1, e)

NoErr == [k |-> "", s |-> 0, e |-> 0, l |-> 0, c |-> 0, x |-> ""]
Start == [i |-> 1, line |-> 1, nl |-> 0, ind |-> 0, T |-> <<>>, err |-> NoErr, done |-> FALSE]
Tok(st, k, s, e, x) == [k |-> k, s |-> s, e |-> e, l |-> st.line, c |-> s - st.nl, x |-> x]
Fail(st, s, e, why) == [st EXCEPT !.err = Tok(st, "error", s, e, why), !.done = TRUE]
Emit(st, t, j) == [st EXCEPT !.T = Append(@, t), !.i = j]
LastKind(st) == IF st.T = <<>> THEN "start" ELSE st.T[Len(st.T)].k
LastTok(st) == st.T[Len(st.T)]
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE <<t>> \o Times(t, n - 1)

(* blanks: after a newline they are the indentation, otherwise they only separate *)
LexIndent(x, st) ==
  LET j == RunEnd(x, st.i, {" "})
      n == j - st.i
      lvl == n \div 2
      t == Tok(st, "ind", st.i, j - 1, "")
  IN  IF Ch(x, j) = "\n" THEN Fail(st, st.i, j - 1, "blanks at line end")
      ELSE IF n % 2 # 0 THEN Fail(st, st.i, j - 1, "odd indentation")
      ELSE IF lvl > st.ind + 1 THEN Fail(st, st.i, j - 1, "indentation jump")
      ELSE IF lvl = st.ind + 1 THEN [Emit(st, t, j) EXCEPT !.ind = lvl]
      ELSE [st EXCEPT !.T = @ \o Times([t EXCEPT !.k = "ded"], st.ind - lvl), !.ind = lvl, !.i = j]
LexSpace(x, st) ==
  IF LastKind(st) = "nl" THEN LexIndent(x, st)
  ELSE LET j == RunEnd(x, st.i, {" "})
       IN  IF Ch(x, j) = "\n" THEN Fail(st, st.i, j - 1, "blanks at line end") ELSE [st EXCEPT !.i = j]
LexNewline(x, st) ==
  LET j == RunEnd(x, st.i, {"\n"})
      st1 == [Emit(st, Tok(st, "nl", st.i, j - 1, ""), j) EXCEPT !.line = @ + (j - st.i), !.nl = j - 1]
  IN  IF LastKind(st) = "semi" THEN [st EXCEPT !.err = [LastTok(st) EXCEPT !.k = "error", !.x = "separator at line end"], !.done = TRUE]
      ELSE IF j <= Len(x) /\ x[j] # " " /\ st.ind > 0
      THEN [st1 EXCEPT !.T = @ \o Times(Tok(st1, "ded", j, j, ""), st.ind), !.ind = 0]
      ELSE st1
LexComment(x, st) ==
  LET j == Find(x, st.i, {"\n"})
  IN  IF LastKind(st) \in {"start", "nl", "ind", "ded"} THEN Emit(st, Tok(st, "cmt", st.i, j - 1, Text(x, st.i + 1, j - 1)), j)
      ELSE [st EXCEPT !.i = j]
LexString(x, st) ==
  LET j == Find(x, st.i + 1, {"\""})
      n == LastNl(x, st.i, j)
  IN  IF j > Len(x) THEN Fail(st, st.i, Len(x), "unterminated string")
      ELSE LET r == Emit(st, Tok(st, "str", st.i, j, Text(x, st.i + 1, j - 1)), j + 1)
           IN  IF n = 0 THEN r ELSE [r EXCEPT !.line = @ + Newlines(x, st.i, j), !.nl = n]
LexBits(x, st, digits) ==
  LET j == RunEnd(x, st.i + 2, digits \cup Meta)
      c == Ch(x, j)
  IN  IF c \in {"", " ", "\n", ";", ","} THEN Fail(st, st.i, j - 1, "unterminated bit string")
      ELSE IF c = "\"" THEN Emit(st, Tok(st, "bits", st.i, j, Text(x, st.i, j)), j + 1)
      ELSE Fail(st, j, j, "character in bit string")
LexBased(x, st, digits) ==
  LET j == RunEnd(x, st.i + 2, digits)
  IN  IF j > Len(x) \/ x[j] \in AfterNumber THEN Emit(st, Tok(st, "int", st.i, j - 1, Text(x, st.i, j - 1)), j)
      ELSE Fail(st, j, j, "character in number")
RECURSIVE Decimal(_, _, _, _)       \* <<end, ok, float>>
Decimal(x, j, point, expo) ==
  IF j > Len(x) THEN <<j, TRUE, point \/ expo>>
  ELSE IF x[j] \in Digits THEN Decimal(x, j + 1, point, expo)
  ELSE IF x[j] = "." THEN IF point \/ expo THEN <<j, FALSE, TRUE>> ELSE Decimal(x, j + 1, TRUE, expo)
  ELSE IF x[j] \in {"e", "E"} THEN IF expo THEN <<j, FALSE, TRUE>> ELSE Decimal(x, j + 1, point, TRUE)
  ELSE <<j, x[j] \in AfterNumber, point \/ expo>>
LexNumber(x, st) ==
  LET n == Ch(x, st.i + 1)
  IN  IF x[st.i] = "0" /\ n \in {"b", "B"} THEN LexBased(x, st, {"0", "1"})
      ELSE IF x[st.i] = "0" /\ n \in {"o", "O"} THEN LexBased(x, st, {"0", "1", "2", "3", "4", "5", "6", "7"})
      ELSE IF x[st.i] = "0" /\ n \in {"x", "X"} THEN LexBased(x, st, HexDigits)
      ELSE LET d == Decimal(x, st.i + 1, FALSE, FALSE)
           IN  IF d[2] THEN Emit(st, Tok(st, IF d[3] THEN "float" ELSE "int", st.i, d[1] - 1, Text(x, st.i, d[1] - 1)), d[1])
               ELSE Fail(st, d[1], d[1], "character in number")
(* a word: property (only where a property may stand), qualified name, keyword or name; a hyphen which is not part of *)
(* a property's name is the subtraction operator *)
LexWord(x, st) ==
  LET j == RunEnd(x, st.i, WordChars)
      propPlace == LastKind(st) \in {"start", "nl", "semi", "ind", "ded"}
      hy == FindIn(x, st.i, j - 1, {"-"})
      whole == Text(x, st.i, j - 1)
      e == IF hy < j /\ ~(whole \in Properties /\ propPlace) THEN hy - 1 ELSE j - 1
      w == IF e = j - 1 THEN whole ELSE Text(x, st.i, e)
      dot == FindIn(x, st.i, e, {"."})
      kind == IF w \in Properties /\ propPlace THEN "prop"
              ELSE IF w \in {"true", "false"} THEN "bool"
              ELSE IF w \in {"const", "import", "type"} THEN w
              ELSE IF w \in Functionalities /\ LastKind(st) \notin {"start", "nl", "ind", "ded"} THEN "func"
              ELSE "id"
      unit == kind = "id" /\ LastKind(st) = "int" /\ w \in {"ns", "us", "ms", "s"}
  IN  IF dot <= e
      THEN IF Ch(x, dot + 1) \in Letters /\ dot < e THEN Emit(st, Tok(st, "qid", st.i, e, w), e + 1)
           ELSE Fail(st, st.i, e, "qualified name")
      ELSE IF unit THEN LET n == LastTok(st) IN [st EXCEPT !.T = [@ EXCEPT ![Len(@)] = [n EXCEPT !.k = "time", !.e = e, !.x = n.x \o " " \o w]], !.i = e + 1]
      ELSE Emit(st, Tok(st, kind, st.i, e, w), e + 1)
LexSymbol(x, st) ==
  LET c == x[st.i]
      c2 == IF st.i < Len(x) THEN c \o x[st.i + 1] ELSE c
  IN  IF c \in {",", ";"} /\ LastKind(st) = Kind1[c] THEN Fail(st, st.i, st.i, "duplicated separator")
      ELSE IF c2 \in Operators2 THEN Emit(st, Tok(st, "op", st.i, st.i + 1, c2), st.i + 2)
      ELSE IF c \in Ops THEN Emit(st, Tok(st, "op", st.i, st.i, c), st.i + 1)
      ELSE IF c \in DOMAIN Kind1 THEN Emit(st, Tok(st, Kind1[c], st.i, st.i, c), st.i + 1)
      ELSE Fail(st, st.i, st.i, "character")

LexStep(x, st) ==
  IF st.i > Len(x) THEN [Emit(st, Tok(st, "eof", st.i, st.i, ""), st.i) EXCEPT !.done = TRUE]
  ELSE LET c == x[st.i]
           n == Ch(x, st.i + 1)
       IN  IF c = " " THEN LexSpace(x, st)
           ELSE IF c = "\t" THEN Fail(st, st.i, st.i, "tab")
           ELSE IF c = "\n" THEN LexNewline(x, st)
           ELSE IF c = "#" THEN LexComment(x, st)
           ELSE IF c = "\"" THEN LexString(x, st)
           ELSE IF c \in {"b", "B"} /\ n = "\"" THEN LexBits(x, st, {"0", "1"})
           ELSE IF c \in {"o", "O"} /\ n = "\"" THEN LexBits(x, st, {"0", "1", "2", "3", "4", "5", "6", "7"})
           ELSE IF c \in {"x", "X"} /\ n = "\"" THEN LexBits(x, st, HexDigits)
           ELSE IF c \in Digits THEN LexNumber(x, st)
           ELSE IF c \in Letters \cup {"_"} THEN LexWord(x, st)
           ELSE LexSymbol(x, st)
RECURSIVE LexFrom(_, _)
LexFrom(x, st) == IF st.done THEN st ELSE LexFrom(x, LexStep(x, st))
Lex(x) == LexFrom(x, Start)
=============================================================================
