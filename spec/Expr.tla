-------------------------------- MODULE Expr --------------------------------
(* Expressions: a sequence of tokens is read one token per step by a machine with a stack of operands   *)
(* and a stack of operators (operator precedence, left associativity); operators are applied as soon as  *)
(* their operands are known.                                                                             *)
(*                                                                                                     *)
(* Tokens  [k: "num", b, ds] (digits ds in base b) [k: "float", n, s] (n / 10^s, digits of n) "bool" v    *)
(*         "time" n u  "str"  "bits"  "id" name  "op" o  "(" ")" "[" "]" "," "fn" name (with its parenthesis) *)
(* Values  [t: "int", v] [t: "rat", n, m] (a float n/m) [t: "log", b, n, m] (a float, log_b of n/m)       *)
(*         "bool" "range" "time" "str" "bits" "list", "err": an error, "any": outside of 64 bits, where    *)
(*         nothing is specified                                                                          *)
EXTENDS BigInt, FiniteSets

VErr == [t |-> "err"]
VAny == [t |-> "any"]
VInt(x) == IF InInt64(x) THEN [t |-> "int", v |-> x] ELSE VAny
VBool(b) == [t |-> "bool", v |-> b]
VRat(n, m) == IF m.neg THEN [t |-> "rat", n |-> BNeg(n), m |-> BNeg(m)] ELSE [t |-> "rat", n |-> n, m |-> m]

Prec(o) == CASE o = ":" -> 0 [] o = "||" -> 1 [] o = "&&" -> 2
             [] o \in {"==", "!=", "<", "<=", ">", ">="} -> 3
             [] o \in {"+", "-", "|"} -> 4
             [] o \in {"*", "/", "%", "<<", ">>", "&"} -> 5
             [] o = "**" -> 6
UnaryPrec == 4
UnaryOps == {"+", "-", "!"}

(* ------------------------- operators ------------------------- *)
PowVal(x, y) ==      \* y >= 0
  IF x.d = <<>> \/ x.d = <<1>> THEN VInt(IF ~IsSmall(y) THEN (IF x.neg /\ y.d[1] % 2 = 0 THEN BNeg(x) ELSE x)
                                         ELSE IF y.d = <<>> THEN FromInt(1)
                                         ELSE IF x.neg /\ y.d[1] % 2 = 0 THEN BNeg(x) ELSE x)
  ELSE IF ~IsSmall(y) THEN VAny ELSE IF ToInt(y) > 64 THEN VAny ELSE VInt(BPow(x, ToInt(y)))
PowNeg(x, y) ==      \* y < 0
  IF x.d = <<>> THEN VErr
  ELSE IF x.d = <<1>> THEN PowVal(x, BNeg(y))
  ELSE IF ~IsSmall(y) THEN VAny ELSE IF ToInt(y) < -40 THEN VAny ELSE VRat(FromInt(1), BPow(x, -ToInt(y)))

IntOp(o, x, y) ==
  CASE o = "+" -> VInt(BAdd(x, y))
    [] o = "-" -> VInt(BSub(x, y))
    [] o = "*" -> VInt(BMul(x, y))
    [] o = "/" -> IF y = BZero THEN VErr ELSE IF BRem(x, y) = BZero THEN VInt(BQuot(x, y)) ELSE VRat(x, y)
    [] o = "%" -> IF y = BZero THEN VErr ELSE VInt(BRem(x, y))
    [] o = "**" -> IF y.neg THEN PowNeg(x, y) ELSE PowVal(x, y)
    [] o = "<<" -> IF y.neg THEN VErr ELSE IF x = BZero THEN VInt(x) ELSE IF ~IsSmall(y) THEN VAny
                   ELSE IF ToInt(y) > 64 THEN VAny ELSE VInt(BMul(x, BPow(Two, ToInt(y))))
    [] o = ">>" -> IF y.neg THEN VErr ELSE IF ~IsSmall(y) THEN VInt(IF x.neg THEN FromInt(-1) ELSE BZero)
                   ELSE IF ToInt(y) > 64 THEN VInt(IF x.neg THEN FromInt(-1) ELSE BZero)
                   ELSE VInt(BFloor(x, BPow(Two, ToInt(y))))
    [] o = ":" -> [t |-> "range", l |-> x, r |-> y]
    [] OTHER -> VErr             \* not defined for integers (yet)
Apply2(o, x, y) ==
  IF x.t = "err" \/ y.t = "err" THEN VErr
  ELSE IF x.t = "any" \/ y.t = "any" THEN VAny
  ELSE IF x.t = "int" /\ y.t = "int" THEN IntOp(o, x.v, y.v) ELSE VErr
Apply1(o, x) ==
  CASE x.t \in {"err", "any"} -> x
    [] x.t = "int" /\ o = "+" -> x
    [] x.t = "int" /\ o = "-" -> VInt(BNeg(x.v))
    [] x.t = "bool" /\ o = "!" -> VBool(~x.v)
    [] OTHER -> VErr

(* greatest k with b^k <= n/m (n/m > 0) *)
RECURSIVE LogUp(_, _, _, _)
LogUp(b, n, m, k) == IF BLess(n, BMul(m, BPow(b, k + 1))) THEN k ELSE LogUp(b, n, m, k + 1)
RECURSIVE LogDown(_, _, _, _)
LogDown(b, n, m, k) == IF BLess(BMul(n, BPow(b, -k)), m) THEN LogDown(b, n, m, k - 1) ELSE k
FloorLog(b, n, m) == IF BLess(n, m) THEN LogDown(b, n, m, -1) ELSE LogUp(b, n, m, 0)
IsPower(b, n, m, k) == IF k >= 0 THEN n = BMul(m, BPow(b, k)) ELSE BMul(n, BPow(b, -k)) = m
LogVal(base, n, m) ==
  IF n.neg \/ n = BZero THEN VErr
  ELSE LET b == FromInt(base)
           k == FloorLog(b, n, m)
       IN  IF IsPower(b, n, m, k) THEN VInt(FromInt(k)) ELSE [t |-> "log", b |-> base, n |-> n, m |-> m]

Call(f, args) ==
  IF \E i \in DOMAIN args : args[i].t = "err" THEN VErr
  ELSE IF f \notin {"bool", "ceil", "floor", "log2", "log10"} \/ Len(args) # 1 THEN VErr
  ELSE LET x == args[1] IN
  CASE x.t = "any" -> VAny
    [] f = "bool" -> IF x.t = "int" THEN VBool(x.v # BZero) ELSE VErr
    [] f = "ceil" /\ x.t = "int" -> x
    [] f = "ceil" /\ x.t = "rat" -> VInt(BCeil(x.n, x.m))
    [] f = "ceil" /\ x.t = "log" -> VInt(FromInt(FloorLog(FromInt(x.b), x.n, x.m) + 1))
    [] f = "floor" /\ x.t = "int" -> x
    [] f = "floor" /\ x.t = "rat" -> VInt(BFloor(x.n, x.m))
    [] f = "floor" /\ x.t = "log" -> VInt(FromInt(FloorLog(FromInt(x.b), x.n, x.m)))
    [] f \in {"log2", "log10"} /\ x.t = "int" -> LogVal(IF f = "log2" THEN 2 ELSE 10, x.v, FromInt(1))
    [] f \in {"log2", "log10"} /\ x.t = "rat" -> LogVal(IF f = "log2" THEN 2 ELSE 10, x.n, x.m)
    [] f \in {"log2", "log10"} /\ x.t = "log" -> VAny
    [] OTHER -> VErr

Unit(u) == CASE u = "s" -> 9 [] u = "ms" -> 6 [] u = "us" -> 3 [] u = "ns" -> 0
TimeVal(n, u) ==      \* in seconds and nanoseconds
  LET ns == BMul(n, BPow(FromInt(10), Unit(u)))
      g  == BPow(FromInt(10), 9)
  IN  IF ~InInt64(ns) THEN VAny ELSE [t |-> "time", s |-> BQuot(ns, g), ns |-> BRem(ns, g)]

(* env: name -> value *)
Operand(tk, env) ==
  CASE tk.k = "num"  -> LET x == BFromDigits(tk.b, tk.ds, BZero) IN IF InInt64(x) THEN VInt(x) ELSE VErr
    [] tk.k = "float" -> VRat(BFromDigits(10, tk.n, BZero), BPow(FromInt(10), tk.s))
    [] tk.k = "bool" -> VBool(tk.v)
    [] tk.k = "time" -> TimeVal(BFromDigits(10, tk.n, BZero), tk.u)
    [] tk.k = "str"  -> [t |-> "str", v |-> tk.v]
    [] tk.k = "bits" -> [t |-> "bits"]
    [] tk.k = "id"   -> IF tk.name \in DOMAIN env THEN env[tk.name] ELSE VErr
Operands == {"num", "float", "bool", "time", "str", "bits", "id"}

(* ------------------------- the machine ------------------------- *)
(* vs: operand stack; os: operator stack, entries [k, o, p]: k "2" binary, "1" unary, "(" or "[" or "fn"  *)
(* open bracket (o function name, p number of operands below); mode: "x" operand expected, "o" operator   *)
(* expected, "e" syntax error                                                                           *)
M0 == [vs |-> <<>>, os |-> <<>>, mode |-> "x"]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Bracket(e) == e.k \in {"(", "[", "fn"}

ApplyTop(m) ==
  LET e == Top(m.os)
      n == Len(m.vs)
  IN  IF e.k = "1" THEN [m EXCEPT !.os = Pop(@), !.vs = Append(Pop(@), Apply1(e.o, Top(m.vs)))]
      ELSE [m EXCEPT !.os = Pop(@), !.vs = Append(SubSeq(@, 1, n - 2), Apply2(e.o, @[n - 1], @[n]))]
RECURSIVE Reduce(_, _)        \* applies operators of precedence at least p
Reduce(m, p) == IF m.os = <<>> THEN m
                ELSE IF Bracket(Top(m.os)) THEN m
                ELSE IF Top(m.os).p >= p THEN Reduce(ApplyTop(m), p) ELSE m
SyntaxError(m) == [m EXCEPT !.mode = "e"]

Close(m, br) ==        \* ) or ]; m reduced
  IF m.os = <<>> THEN SyntaxError(m)
  ELSE LET e == Top(m.os)
           below == SubSeq(m.vs, 1, e.p)
           above == SubSeq(m.vs, e.p + 1, Len(m.vs))
       IN  IF br = ")" /\ e.k = "(" THEN [m EXCEPT !.os = Pop(@), !.mode = "o"]
           ELSE IF br = ")" /\ e.k = "fn" THEN [vs |-> Append(below, Call(e.o, above)), os |-> Pop(m.os), mode |-> "o"]
           ELSE IF br = "]" /\ e.k = "["
           THEN [vs |-> Append(below, IF \E i \in DOMAIN above : above[i].t = "err" THEN VErr
                                      ELSE IF \E i \in DOMAIN above : above[i].t = "any" THEN VAny
                                      ELSE [t |-> "list", xs |-> above]), os |-> Pop(m.os), mode |-> "o"]
           ELSE SyntaxError(m)

StepX(m, tk, env) ==        \* operand expected
  CASE tk.k \in Operands -> [m EXCEPT !.vs = Append(@, Operand(tk, env)), !.mode = "o"]
    [] tk.k \in {"(", "[", "fn"} ->
         [m EXCEPT !.os = Append(@, [k |-> tk.k, o |-> IF tk.k = "fn" THEN tk.name ELSE "", p |-> Len(m.vs)])]
    [] tk.k = "op" /\ tk.o \in UnaryOps -> [m EXCEPT !.os = Append(@, [k |-> "1", o |-> tk.o, p |-> UnaryPrec])]
    [] tk.k \in {")", "]"} /\ m.os # <<>> ->      \* empty list or no arguments
         IF Bracket(Top(m.os)) /\ Top(m.os).p = Len(m.vs) /\ Top(m.os).k # "(" THEN Close(m, tk.k) ELSE SyntaxError(m)
    [] OTHER -> SyntaxError(m)
StepO(m, tk) ==             \* operator expected
  CASE tk.k = "op" /\ tk.o # "!" ->
         LET r == Reduce(m, Prec(tk.o)) IN [r EXCEPT !.os = Append(@, [k |-> "2", o |-> tk.o, p |-> Prec(tk.o)]), !.mode = "x"]
    [] tk.k \in {")", "]"} -> Close(Reduce(m, 0), tk.k)
    [] tk.k = "," -> LET r == Reduce(m, 0) IN
         IF r.os # <<>> /\ Top(r.os).k \in {"[", "fn"} THEN [r EXCEPT !.mode = "x"] ELSE SyntaxError(m)
    [] OTHER -> SyntaxError(m)
MStep(m, tk, env) == IF m.mode = "e" THEN m ELSE IF m.mode = "x" THEN StepX(m, tk, env) ELSE StepO(m, tk)
MResult(m) ==
  IF m.mode # "o" THEN VErr
  ELSE LET r == Reduce(m, 0) IN IF r.os # <<>> \/ Len(r.vs) # 1 THEN VErr ELSE r.vs[1]
RECURSIVE MRun(_, _, _)
MRun(m, toks, env) == IF toks = <<>> THEN MResult(m) ELSE MRun(MStep(m, Head(toks), env), Tail(toks), env)
ExprValue(toks, env) == MRun(M0, toks, env)

(* ---------------- precedence and associativity, declaratively ---------------- *)
(* The value of a sequence of operands, operators and parentheses: the root is the last operator of the *)
(* lowest precedence among the binary operators which are outside of parentheses and not captured by a   *)
(* unary operator to the left; a unary operator captures everything up to an operator of at most its own  *)
(* precedence.                                                                                          *)
Depth(s, i) == Cardinality({j \in 1 .. i : s[j].k = "("}) - Cardinality({j \in 1 .. i : s[j].k = ")"})
IsOp(s, i) == s[i].k = "op"
IsUnaryAt(s, i) == IsOp(s, i) /\ (IF i = 1 THEN TRUE ELSE s[i - 1].k \in {"op", "("})
IsBinaryAt(s, i) == IsOp(s, i) /\ ~IsUnaryAt(s, i)
Captured(s, j) ==
  \E i \in 1 .. j - 1 : /\ IsUnaryAt(s, i) /\ Depth(s, i) = 0 /\ Prec(s[j].o) > UnaryPrec
                        /\ \A m \in i + 1 .. j - 1 : (IsBinaryAt(s, m) /\ Depth(s, m) = 0) => Prec(s[m].o) > UnaryPrec
Free(s) == {j \in DOMAIN s : IsBinaryAt(s, j) /\ Depth(s, j) = 0 /\ ~Captured(s, j)}
RECURSIVE Denote(_)
Denote(s) ==
  IF s = <<>> THEN VErr
  ELSE IF Free(s) # {}
  THEN LET j == CHOOSE x \in Free(s) : \A y \in Free(s) : Prec(s[x].o) < Prec(s[y].o) \/ (Prec(s[x].o) = Prec(s[y].o) /\ y <= x)
       IN  Apply2(s[j].o, Denote(SubSeq(s, 1, j - 1)), Denote(SubSeq(s, j + 1, Len(s))))
  ELSE IF IsUnaryAt(s, 1) THEN Apply1(s[1].o, Denote(Tail(s)))
  ELSE IF Len(s) = 1 THEN Operand(s[1], <<>>)
  ELSE Denote(SubSeq(s, 2, Len(s) - 1))

(* ------------------------- recorded values ------------------------- *)
(* |r - n/m| <= 10^-12 |n/m|, r = a / 10^s (s of either sign) *)
P10(k) == BPow(FromInt(10), k)
CloseTo(r, n, mm) ==
  LET a  == Mk(r.neg, IF r.s < 0 THEN BMul(Mk(FALSE, r.n), P10(-r.s)).d ELSE r.n)
      d  == IF r.s > 0 THEN BMul(mm, P10(r.s)) ELSE mm
      e  == IF r.s > 0 THEN BMul(n, P10(r.s)) ELSE n       \* a*mm should be e
      df == BSub(BMul(a, mm), e)
  IN  BLeq(BMul(Mk(FALSE, df.d), P10(12)), Mk(FALSE, e.d))
(* r is log_b(n/m) to 1/16: b^k <= (n/m)^16 <= b^(k+1), k = floor(16 r), with one unit of slack *)
LogClose(r, v) ==
  LET k == ToInt(BFloor(BMul(FromInt(16), Mk(r.neg, r.n)), P10(r.s)))
      b == FromInt(v.b)
      n == BPow(v.n, 16)
      d == BPow(v.m, 16)
      Le(x, y, kk) == IF kk >= 0 THEN BLeq(BMul(BPow(b, kk), y), x) ELSE BLeq(y, BMul(x, BPow(b, -kk)))
  IN  Le(n, d, k - 1) /\ ~Le(n, d, k + 2)

AllT(xs, t) == xs # <<>> /\ \A j \in DOMAIN xs : xs[j].t = t
Matches(v, r) ==
  CASE v.t = "any" -> TRUE
    [] v.t = "int" -> r.t = "int" /\ r.v = v.v
    [] v.t = "rat" -> r.t = "float" /\ CloseTo(r, v.n, v.m)
    [] v.t = "log" -> r.t = "float" /\ LogClose(r, v)
    [] v.t = "bool" -> r.t = "bool" /\ r.v = v.v
    [] v.t = "str" -> r.t = "str" /\ r.v = v.v
    [] v.t = "range" -> r.t = "none" \/ (r.t = "range" /\ r.l = v.l /\ r.r = v.r)
    [] v.t = "time" -> r.t = "none" \/ (r.t = "time" /\ r.s = v.s /\ r.ns = v.ns)
    [] v.t = "list" -> CASE AllT(v.xs, "int") -> r.t = "ints" /\ r.xs = [j \in DOMAIN v.xs |-> v.xs[j].v]
                         [] AllT(v.xs, "bool") -> r.t = "bools" /\ r.xs = [j \in DOMAIN v.xs |-> v.xs[j].v]
                         [] OTHER -> r.t = "none"
    [] OTHER -> r.t = "none"
=============================================================================
