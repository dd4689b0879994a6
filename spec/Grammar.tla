------------------------------ MODULE Grammar ------------------------------
(* The syntax: from tokens (of Lexer.tla) to declarations, or to the first token that fits nowhere. The result is   *)
(* flat: a sequence of nodes [k: "inst" | "type" | "const" | "prop" | "import", p: index of the enclosing node (0:  *)
(* the file), name, typ (and its qualifier tq), cnt, par, arg, val: expressions as sequences of symbols in prefix form, doc, t: the name's *)
(* token, vs, ve: first and last token of the value].                                                               *)
EXTENDS Lexer, BigInt, TLC, FiniteSets
Prec(o) == CASE o = ":" -> 0 [] o = "||" -> 1 [] o = "&&" -> 2
             [] o \in {"==", "!=", "<", "<=", ">", ">="} -> 3 [] o \in {"+", "-", "|"} -> 4
             [] o \in {"*", "/", "%", "<<", ">>", "&"} -> 5 [] o = "**" -> 6
Node(k, p, t) == [k |-> k, p |-> p, name |-> t.x, typ |-> "", tq |-> "", cnt |-> <<>>, par |-> <<>>, arg |-> <<>>, val |-> <<>>, doc |-> "", t |-> t, vs |-> NoErr, ve |-> NoErr]
NoDoc == [l |-> 0, x |-> ""]
Failed(r) == r.err.k # ""
Bad(t) == [t EXCEPT !.k = "error"]
Span(a, b) == [a EXCEPT !.e = b.e]

(* a symbol of an expression or list: [h: what, s: text or name, q: qualifier, c: characters, d: decimal digits of an integer] *)
R(h, s) == [h |-> h, s |-> s, q |-> "", c |-> <<>>, d |-> <<>>]
(* the value of an integer literal; unusual spellings stand for themselves *)
DigitVal == [c \in HexDigits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6
             [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
             [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15]
IntMeaning(x, t) ==
  LET base == IF x[t.s] = "0" /\ t.e > t.s THEN (CASE x[t.s + 1] \in {"b", "B"} -> 2 [] x[t.s + 1] \in {"o", "O"} -> 8 [] x[t.s + 1] \in {"x", "X"} -> 16 [] OTHER -> 0) ELSE 10
      s == IF base = 10 THEN t.s ELSE t.s + 2
      ds == [n \in 1 .. t.e - s + 1 |-> DigitVal[x[s + n - 1]]]
  IN  IF base = 0 \/ ds = <<>> \/ Len(ds) > 64 THEN R("int", t.x)
      ELSE [R("int", "") EXCEPT !.d = BFromDigits(base, ds, BZero).d]
Qualified(x, t) == LET j == Find(x, t.s, {"."}) IN [R("name", Text(x, j + 1, t.e)) EXCEPT !.q = Text(x, t.s, j - 1)]

(* expressions: [i: next token, err, v] *)
RECURSIVE PExpr(_, _, _, _), PTail(_, _, _, _), PItems(_, _, _, _, _, _)
PTail(x, T, r, left) ==
  IF Failed(r) \/ T[r.i].k # "op" \/ left >= Prec(T[r.i].x) THEN r
  ELSE LET o == T[r.i].x
           y == PExpr(x, T, r.i + 1, Prec(o))
       IN  IF Failed(y) THEN y ELSE PTail(x, T, [y EXCEPT !.v = <<R("binary", o)>> \o r.v \o y.v], left)
PItems(x, T, i, first, prev, r) ==      \* items up to the closing token r.close
  LET t == T[i]
  IN  IF t.k = r.close THEN [i |-> i + 1, err |-> NoErr, v |-> Append(r.v, R("end", ""))]
      ELSE IF t.k = "comma" THEN IF i = first THEN [i |-> i, err |-> Bad(t), v |-> <<>>] ELSE PItems(x, T, i + 1, first, FALSE, r)
      ELSE IF prev THEN [i |-> i, err |-> Bad(t), v |-> <<>>]
      ELSE LET y == PExpr(x, T, i, -1) IN IF Failed(y) THEN y ELSE PItems(x, T, y.i, first, TRUE, [r EXCEPT !.v = @ \o y.v])
PExpr(x, T, i, left) ==
  LET t == T[i]
      err == [i |-> i, err |-> Bad(t), v |-> <<>>]
      leaf(s) == [i |-> i + 1, err |-> NoErr, v |-> <<s>>]
      prim ==
        CASE t.k = "neg" \/ (t.k = "op" /\ t.x \in {"+", "-"}) ->
               LET y == PExpr(x, T, i + 1, 4) IN [y EXCEPT !.v = <<R("unary", IF t.k = "neg" THEN "!" ELSE t.x)>> \o @]
          [] t.k = "id" -> IF T[i + 1].k = "lp" THEN PItems(x, T, i + 2, i + 2, FALSE, [close |-> "rp", v |-> <<R("call", t.x)>>]) ELSE leaf(R("name", t.x))
          [] t.k = "qid" -> IF T[i + 1].k = "lp" THEN err ELSE leaf(Qualified(x, t))
          [] t.k = "int" -> leaf(IntMeaning(x, t))
          [] t.k \in {"bool", "float", "str", "time", "bits"} -> leaf([R(t.k, t.x) EXCEPT !.c = SubSeq(x, t.s, t.e)])
          [] t.k = "lb" -> PItems(x, T, i + 1, i + 1, FALSE, [close |-> "rb", v |-> <<R("list", "")>>])
          [] t.k = "lp" -> LET y == PExpr(x, T, i + 1, -1)
                           IN  IF Failed(y) THEN y ELSE IF T[y.i].k # "rp" THEN [y EXCEPT !.err = Bad(T[y.i])] ELSE [y EXCEPT !.i = @ + 1]
          [] OTHER -> err
  IN  PTail(x, T, prim, left)

(* comments: [i, doc: the text and the line of the last comment] *)
RECURSIVE PDoc(_, _, _)
DocText(x, t) == Text(x, IF t.e > t.s /\ x[t.s + 1] = " " THEN t.s + 2 ELSE t.s + 1, t.e)
PDoc(x, T, r) ==
  LET t == T[r.i]
  IN  IF t.k = "nl" THEN PDoc(x, T, [r EXCEPT !.i = @ + 1])
      ELSE IF t.k = "cmt" THEN PDoc(x, T, [i |-> r.i + 1, doc |-> [l |-> t.l, x |-> IF r.doc.l = 0 THEN DocText(x, t) ELSE r.doc.x \o "\n" \o DocText(x, t)]])
      ELSE r

(* parameter and argument lists, from the parenthesis: [i, err, v] *)
RECURSIVE PParams(_, _, _, _), PArgs(_, _, _, _)
PParams(x, T, i, v) ==                  \* a parameter is expected at i
  LET t == T[i]
      n == T[i + 1]
      e == PExpr(x, T, i + 2, -1)
      v1 == Append(v, R("param", t.x))
  IN  IF t.k # "id" THEN [i |-> i, err |-> Bad(t), v |-> v]
      ELSE IF n.k = "comma" THEN PParams(x, T, i + 2, v1)
      ELSE IF n.k = "rp" THEN [i |-> i + 2, err |-> NoErr, v |-> v1]
      ELSE IF n.k # "ass" THEN [i |-> i + 1, err |-> Bad(n), v |-> v]
      ELSE IF Failed(e) THEN e
      ELSE IF T[e.i].k = "comma" THEN PParams(x, T, e.i + 1, Append(v1, R("default", "")) \o e.v)
      ELSE IF T[e.i].k = "rp" THEN [i |-> e.i + 1, err |-> NoErr, v |-> Append(v1, R("default", "")) \o e.v]
      ELSE [i |-> e.i, err |-> Bad(T[e.i]), v |-> v]
PArgs(x, T, i, v) ==
  LET t == T[i]
      named == t.k = "id" /\ T[i + 1].k = "ass"
      e == PExpr(x, T, IF named THEN i + 2 ELSE i, -1)
      v1 == Append(v, R("arg", IF named THEN t.x ELSE "")) \o e.v
  IN  IF Failed(e) THEN e
      ELSE IF T[e.i].k = "comma" THEN PArgs(x, T, e.i + 1, v1)
      ELSE IF T[e.i].k = "rp" THEN [i |-> e.i + 1, err |-> NoErr, v |-> v1]
      ELSE [i |-> e.i, err |-> Bad(T[e.i]), v |-> v]
PList(x, T, i, params) ==
  IF T[i].k # "lp" THEN [i |-> i, err |-> NoErr, v |-> <<>>]
  ELSE IF T[i + 1].k = "rp" THEN [i |-> i, err |-> Bad(Span(T[i], T[i + 1])), v |-> <<>>]
  ELSE IF params THEN PParams(x, T, i + 1, <<>>) ELSE PArgs(x, T, i + 1, <<>>)
PCount(x, T, i) ==
  IF T[i].k # "lb" THEN [i |-> i, err |-> NoErr, v |-> <<>>]
  ELSE LET e == PExpr(x, T, i + 1, -1)
       IN  IF Failed(e) THEN e ELSE IF T[e.i].k # "rb" THEN [e EXCEPT !.err = Bad(T[e.i])] ELSE [e EXCEPT !.i = @ + 1]

(* declarations: r = [i, err, N, doc] *)
RECURSIVE PProps(_, _, _, _), PDecls(_, _, _, _), PConsts(_, _, _, _, _), PImports(_, _, _)
Err(r, t) == [r EXCEPT !.err = Bad(t)]
PProps(x, T, r, p) ==                   \* ends before the newline
  LET t == T[r.i]
      e == PExpr(x, T, r.i + 2, -1)
      r1 == [r EXCEPT !.i = e.i, !.N = Append(@, [Node("prop", p, t) EXCEPT !.val = e.v, !.vs = T[r.i + 2], !.ve = T[e.i - 1]])]
  IN  IF t.k # "prop" THEN Err(r, t)
      ELSE IF T[r.i + 1].k # "ass" THEN Err(r, T[r.i + 1])
      ELSE IF Failed(e) THEN [r EXCEPT !.err = e.err]
      ELSE IF T[e.i].k \in {"nl", "eof"} THEN r1
      ELSE IF T[e.i].k = "semi" THEN PProps(x, T, [r1 EXCEPT !.i = @ + 1], p)
      ELSE Err(r, T[e.i])
(* [name] [count] type [arguments] [body] from the token i0 on, as node n *)
PRest(x, T, r, n, i0) ==
  LET c == PCount(x, T, i0)
      t == T[c.i]
      q == IF t.k = "qid" THEN Qualified(x, t) ELSE R("name", t.x)
      a == PList(x, T, c.i + 1, FALSE)
      b == T[a.i]
      me == Len(r.N) + 1
      r1 == [r EXCEPT !.i = a.i, !.N = Append(@, [n EXCEPT !.cnt = c.v, !.typ = q.s, !.tq = q.q, !.arg = a.v])]
  IN  IF Failed(c) THEN [r EXCEPT !.err = c.err]
      ELSE IF t.k \notin {"func", "id", "qid"} THEN Err(r, t)
      ELSE IF Failed(a) THEN [r EXCEPT !.err = a.err]
      ELSE IF b.k = "semi" THEN PProps(x, T, [r1 EXCEPT !.i = @ + 1], me)
      ELSE IF b.k = "nl" THEN IF T[a.i + 1].k = "ind" THEN [PDecls(x, T, [r1 EXCEPT !.i = @ + 2, !.doc = NoDoc], me) EXCEPT !.doc = r.doc] ELSE r1
      ELSE IF b.k = "eof" THEN r1
      ELSE Err(r, b)
DocOf(r, t) == IF r.doc.l = t.l - 1 THEN r.doc.x ELSE ""
PInst(x, T, r, p) == PRest(x, T, r, [Node("inst", p, T[r.i]) EXCEPT !.doc = DocOf(r, T[r.i])], r.i + 1)
PType(x, T, r, p) ==
  LET t == T[r.i + 1]
      ps == PList(x, T, r.i + 2, TRUE)
  IN  IF t.k # "id" THEN Err(r, t)
      ELSE IF Failed(ps) THEN [r EXCEPT !.err = ps.err]
      ELSE PRest(x, T, r, [Node("type", p, t) EXCEPT !.par = ps.v, !.doc = DocOf(r, t)], ps.i)
OneConst(x, T, r, p) ==                 \* the name at r.i
  LET e == PExpr(x, T, r.i + 2, -1)
  IN  IF T[r.i + 1].k # "ass" THEN Err(r, T[r.i + 1])
      ELSE IF Failed(e) THEN [r EXCEPT !.err = e.err]
      ELSE [r EXCEPT !.i = e.i, !.N = Append(@, [Node("const", p, T[r.i]) EXCEPT !.val = e.v, !.vs = T[r.i + 2], !.ve = T[e.i - 1]])]
PConsts(x, T, r, p, state) ==
  LET t == T[r.i]
      one == OneConst(x, T, r, p)
  IN  IF Failed(r) THEN r
      ELSE IF state = "indent" THEN IF t.k = "ind" THEN PConsts(x, T, [r EXCEPT !.i = @ + 1], p, "first") ELSE Err(r, t)
      ELSE IF t.k = "id" THEN PConsts(x, T, one, p, "next")
      ELSE IF t.k = "cmt" THEN PConsts(x, T, [r EXCEPT !.i = PDoc(x, T, [i |-> r.i, doc |-> NoDoc]).i], p, state)
      ELSE IF state = "first" THEN Err(r, t)
      ELSE IF t.k = "nl" THEN PConsts(x, T, [r EXCEPT !.i = @ + 1], p, state)
      ELSE IF t.k = "ded" THEN [r EXCEPT !.i = @ + 1]
      ELSE IF t.k = "eof" THEN r
      ELSE Err(r, t)
PConst(x, T, r, p) ==
  LET t == T[r.i + 1]
  IN  IF t.k = "id" THEN OneConst(x, T, [r EXCEPT !.i = @ + 1], p)
      ELSE IF t.k = "nl" THEN PConsts(x, T, [r EXCEPT !.i = @ + 2], p, "indent")
      ELSE Err(r, t)
ImportNode(t, path) == [Node("import", 0, t) EXCEPT !.name = IF t.k = "id" THEN t.x ELSE "", !.val = <<R("path", path.x)>>]
PImports(x, T, r) ==
  LET t == T[r.i]
      n == T[r.i + 1]
  IN  IF t.k = "id" THEN IF n.k = "str" THEN PImports(x, T, [r EXCEPT !.i = @ + 2, !.N = Append(@, ImportNode(t, n))]) ELSE Err(r, n)
      ELSE IF t.k = "str" THEN PImports(x, T, [r EXCEPT !.i = @ + 1, !.N = Append(@, ImportNode(t, t))])
      ELSE IF t.k \in {"nl", "cmt"} THEN PImports(x, T, [r EXCEPT !.i = @ + 1])
      ELSE IF t.k = "ded" THEN [r EXCEPT !.i = @ + 1]
      ELSE IF t.k = "eof" THEN r
      ELSE Err(r, t)
PImport(x, T, r) ==
  LET t == T[r.i + 1]
      n == T[r.i + 2]
  IN  IF t.k = "id" THEN IF n.k = "str" THEN [r EXCEPT !.i = @ + 3, !.N = Append(@, ImportNode(t, n))] ELSE Err(r, n)
      ELSE IF t.k = "str" THEN [r EXCEPT !.i = @ + 2, !.N = Append(@, ImportNode(t, t))]
      ELSE IF t.k # "nl" THEN Err(r, t)
      ELSE IF n.k # "ind" THEN Err(r, n)
      ELSE PImports(x, T, [r EXCEPT !.i = @ + 3])
PDecls(x, T, r, p) ==
  LET t == T[r.i]
      d == PDoc(x, T, [i |-> r.i, doc |-> NoDoc])
  IN  IF Failed(r) \/ t.k = "eof" THEN r
      ELSE IF t.k = "nl" THEN PDecls(x, T, [r EXCEPT !.i = @ + 1], p)
      ELSE IF t.k = "cmt" THEN PDecls(x, T, [r EXCEPT !.i = d.i, !.doc = d.doc], p)
      ELSE IF t.k = "const" THEN PDecls(x, T, PConst(x, T, r, p), p)
      ELSE IF t.k = "id" THEN PDecls(x, T, PInst(x, T, r, p), p)
      ELSE IF t.k = "type" THEN PDecls(x, T, PType(x, T, r, p), p)
      ELSE IF t.k = "import" /\ p = 0 THEN PDecls(x, T, PImport(x, T, r), p)
      ELSE IF t.k = "prop" /\ p # 0 THEN PDecls(x, T, PProps(x, T, r, p), p)
      ELSE IF t.k = "ded" /\ p # 0 THEN [r EXCEPT !.i = @ + 1]
      ELSE Err(r, t)
ParseTokens(x, T) == PDecls(x, T, [i |-> 1, err |-> NoErr, N |-> <<>>, doc |-> NoDoc], 0)

(* [err, N] of a text *)
Parse(x) == LET s == Lex(x) IN IF s.err.k # "" THEN [err |-> s.err, N |-> <<>>, T |-> s.T]
            ELSE LET r == ParseTokens(x, s.T) IN [err |-> r.err, N |-> r.N, T |-> s.T]

(* the meaning of the nodes: what is declared in each body, by kind, without positions *)
RECURSIVE Canon(_, _, _, _)
RECURSIVE Significant(_), SmallInt(_, _)
Significant(ds) == IF ds = <<>> THEN <<>> ELSE IF ds[Len(ds)] = "0" THEN Significant(SubSeq(ds, 1, Len(ds) - 1))
                   ELSE IF ds[1] = "0" THEN Significant(SubSeq(ds, 2, Len(ds))) ELSE ds
Trailing(ds) == LET z == {k \in DOMAIN ds : \A j \in k .. Len(ds) : ds[j] = "0"} IN Cardinality(z)
SmallInt(ds, n) == IF ds = <<>> THEN n ELSE SmallInt(Tail(ds), 10 * n + DigitVal[ds[1]])
(* the value of a float literal: significant digits and exponent; unusual spellings stand for themselves *)
FloatMeaning(r) ==
  LET c == r.c
      n == Len(c)
      e == Find(c, 1, {"e", "E"})
      dot == Find(c, 1, {"."})
      whole == SubSeq(c, 1, (IF dot < e THEN dot ELSE e) - 1)
      frac == IF dot < e THEN SubSeq(c, dot + 1, e - 1) ELSE <<>>
      ds == whole \o frac
      x == SubSeq(c, e + 1, n)
      sig == Significant(ds)
  IN  IF whole = <<>> \/ (dot < e /\ frac = <<>>) \/ (e <= n /\ x = <<>>) \/ Len(x) > 2 THEN R("float", r.s)
      ELSE IF sig = <<>> THEN [R("float", "0") EXCEPT !.q = "value"]
      ELSE [R("float", Text(sig, 1, Len(sig)) \o "e" \o ToString(SmallInt(x, 0) - Len(frac) + Trailing(ds))) EXCEPT !.q = "value"]
Plain(e) == [k \in DOMAIN e |-> IF e[k].h = "float" THEN FloatMeaning(e[k]) ELSE [e[k] EXCEPT !.c = <<>>]]
Canon(N, p, i, k) ==
  IF i > Len(N) THEN <<>>
  ELSE IF N[i].p # p \/ N[i].k # k THEN Canon(N, p, i + 1, k)
  ELSE LET n == N[i]
           inner == IF k \in {"inst", "type"} THEN Canon(N, i, i + 1, "const") \o Canon(N, i, i + 1, "inst") \o Canon(N, i, i + 1, "type") \o Canon(N, i, i + 1, "prop") ELSE <<>>
       IN  <<R("(", k), R("name", n.name), [R("type", n.typ) EXCEPT !.q = n.tq], R("doc", n.doc), R("count", "")>> \o Plain(n.cnt) \o <<R("params", "")>> \o Plain(n.par) \o <<R("args", "")>> \o Plain(n.arg) \o <<R("value", "")>> \o Plain(n.val) \o <<R("body", "")>> \o inner \o <<R(")", "")>>
           \o Canon(N, p, i + 1, k)
Meaning(N) == Canon(N, 0, 1, "import") \o Canon(N, 0, 1, "const") \o Canon(N, 0, 1, "inst") \o Canon(N, 0, 1, "type")
=============================================================================
