-------------------------------- MODULE Elab --------------------------------
(* Elaboration: from the nodes of Grammar.tla (of all the files of a program) to the listing of the main bus and the  *)
(* constants of the packages. A program P is a sequence of nodes; a file is a node of its own: k = "file", name its    *)
(* package; p of a node is the index of the enclosing node. Values are those of Expr.tla, properties those of Inst.tla. *)
(* Every violated rule is collected as [rule, n: node, part: "name", "value" (of a property) or ""].                    *)
EXTENDS Grammar, FiniteSets
X == INSTANCE Expr
I == INSTANCE Inst

(* ------------------------------ programs ------------------------------ *)
FileNode(pkg) == [Node("file", 0, NoErr) EXCEPT !.name = pkg]
AddFile(P, pkg, N) == LET f == Len(P) + 1 IN Append(P, FileNode(pkg)) \o [k \in DOMAIN N |-> [N[k] EXCEPT !.p = IF @ = 0 THEN f ELSE @ + f]]
RECURSIVE KidsFrom(_, _, _, _)
KidsFrom(P, s, k, i) == IF i > Len(P) THEN <<>> ELSE (IF P[i].p = s /\ P[i].k = k THEN <<i>> ELSE <<>>) \o KidsFrom(P, s, k, i + 1)
Kids(P, s, k) == KidsFrom(P, s, k, s + 1)      \* indices of the inner nodes of one kind, in order
Files(P, pkg) == {i \in DOMAIN P : P[i].k = "file" /\ P[i].name = pkg}
Packages(P) == {P[i].name : i \in {j \in DOMAIN P : P[j].k = "file"}}
Alias(n) == IF n.name = "" THEN n.val[1].s ELSE n.name
PkgOf(P, f, q) == IF q = "" THEN P[f].name
                  ELSE LET c == {i \in DOMAIN P : P[i].k = "import" /\ P[i].p = f /\ Alias(P[i]) = q}
                       IN  IF c = {} THEN "" ELSE P[CHOOSE i \in c : TRUE].val[1].s

(* ------------------------------ parameters and arguments ------------------------------ *)
RECURSIVE Skip(_, _), SkipItems(_, _)
SkipItems(e, i) == IF e[i].h = "end" THEN i + 1 ELSE SkipItems(e, Skip(e, i))
Skip(e, i) == CASE e[i].h = "binary" -> Skip(e, Skip(e, i + 1))
                [] e[i].h = "unary" -> Skip(e, i + 1)
                [] e[i].h \in {"list", "call"} -> SkipItems(e, i + 1)
                [] OTHER -> i + 1
RECURSIVE ParamsFrom(_, _), ArgsFrom(_, _)
ParamsFrom(v, i) ==             \* sequence of [n, e]
  IF i > Len(v) THEN <<>>
  ELSE IF i < Len(v) /\ v[i + 1].h = "default"
  THEN LET j == Skip(v, i + 2) IN <<[n |-> v[i].s, e |-> SubSeq(v, i + 2, j - 1)]>> \o ParamsFrom(v, j)
  ELSE <<[n |-> v[i].s, e |-> <<>>]>> \o ParamsFrom(v, i + 1)
ArgsFrom(v, i) == IF i > Len(v) THEN <<>> ELSE LET j == Skip(v, i + 1) IN <<[n |-> v[i].s, e |-> SubSeq(v, i + 1, j - 1)]>> \o ArgsFrom(v, j)
Params(P, t) == ParamsFrom(P[t].par, 1)
Args(P, i) == ArgsFrom(P[i].arg, 1)
Idx(s, n) == LET c == {i \in DOMAIN s : s[i].n = n} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
ArgFor(a, pr, k) == LET pos == IF k <= Len(a) THEN a[k].n = "" ELSE FALSE IN IF pos THEN k ELSE Idx(a, pr[k].n)
ArgsOk(a, pr) ==
  LET named == {k \in DOMAIN a : a[k].n # ""}
      npos == Len(a) - Cardinality(named)
  IN  /\ \A k \in named : k > npos
      /\ npos <= Len(pr)
      /\ \A k \in named : Idx(pr, a[k].n) > npos
      /\ \A k, m \in named : a[k].n = a[m].n => k = m
      /\ \A k \in DOMAIN pr : pr[k].e = <<>> => ArgFor(a, pr, k) # 0
ParamsOk(pr) == /\ \A k, m \in DOMAIN pr : pr[k].n = pr[m].n => k = m
                /\ \A k, m \in DOMAIN pr : k < m /\ pr[k].e # <<>> => pr[m].e # <<>>

(* ------------------------------ names ------------------------------ *)
RECURSIVE DefConst(_, _, _, _), DefType(_, _, _, _), File(_, _)
File(P, i) == IF P[i].k = "file" THEN i ELSE File(P, P[i].p)
Named(P, s, k, n) == {i \in DOMAIN P : P[i].p = s /\ P[i].k = k /\ P[i].name = n}
First(c) == CHOOSE i \in c : \A j \in c : i <= j
(* <<kind, index>>: a constant, the parameter m of the type i: <<"param", i, m>>, or <<"none">> *)
DefConst(P, s, q, n) ==
  IF P[s].k = "file" THEN LET c == UNION {Named(P, f, "const", n) : f \in Files(P, PkgOf(P, s, q))}
                          IN  IF c = {} THEN <<"none", 0, 0>> ELSE <<"const", First(c), 0>>
  ELSE LET c == IF q = "" THEN Named(P, s, "const", n) ELSE {}
           m == IF q = "" /\ P[s].k = "type" THEN Idx(Params(P, s), n) ELSE 0
       IN  IF c # {} THEN <<"const", First(c), 0>> ELSE IF m # 0 THEN <<"param", s, m>> ELSE DefConst(P, P[s].p, q, n)
DefType(P, s, q, n) ==
  LET c == IF P[s].k = "file" THEN UNION {Named(P, f, "type", n) : f \in Files(P, PkgOf(P, s, q))} ELSE IF q = "" THEN Named(P, s, "type", n) ELSE {}
  IN  IF c # {} THEN First(c) ELSE IF P[s].k = "file" THEN 0 ELSE DefType(P, P[s].p, q, n)
IsBase(P, i) == P[i].tq = "" /\ P[i].typ \in I!BaseTypes
ParentOf(P, i) == IF IsBase(P, i) THEN 0 ELSE DefType(P, P[i].p, P[i].tq, P[i].typ)
RECURSIVE ChainFrom(_, _, _)
ChainFrom(P, i, acc) ==
  IF \E k \in DOMAIN acc : acc[k] = i THEN <<>>
  ELSE IF IsBase(P, i) THEN Append(acc, i)
  ELSE LET t == ParentOf(P, i) IN IF t = 0 THEN <<>> ELSE ChainFrom(P, t, Append(acc, i))
Chain(P, i) == ChainFrom(P, i, <<>>)      \* from the node to the type derived from a base type
BaseOf(P, c) == LET b == P[c[Len(c)]].typ IN b

(* ------------------------------ values ------------------------------ *)
DigitsOf(c, i, j) == [k \in 1 .. j - i + 1 |-> DigitVal[c[i + k - 1]]]
IntText(c, i, j) == BFromDigits(10, DigitsOf(c, i, j), BZero)
FloatOf(c) ==
  LET n == Len(c)
      e == FindIn(c, 1, n, {"e", "E"})
      dot == FindIn(c, 1, e - 1, {"."})
      frac == IF dot >= e THEN 0 ELSE e - 1 - dot
      ds == SubSeq(c, 1, dot - 1) \o (IF frac = 0 THEN <<>> ELSE SubSeq(c, dot + 1, e - 1))
      m == BFromDigits(10, [k \in DOMAIN ds |-> DigitVal[ds[k]]], BZero)
      sg == e < n /\ c[e + 1] \in {"+", "-"}
      x == IF e >= n THEN 0 ELSE ToInt(IntText(c, IF sg THEN e + 2 ELSE e + 1, n))
      ex == (IF e < n /\ sg /\ c[e + 1] = "-" THEN -x ELSE x) - frac
  IN  IF ex > 40 \/ ex < -40 THEN X!VAny
      ELSE IF ex >= 0 THEN X!VRat(BMul(m, BPow(FromInt(10), ex)), FromInt(1)) ELSE X!VRat(m, BPow(FromInt(10), -ex))
TimeOf(c) == LET j == RunEnd(c, 1, Digits)
                 k == RunEnd(c, j, {" "})
             IN  IF j - 1 > 18 THEN X!VAny ELSE X!TimeVal(IntText(c, 1, j - 1), IF k = Len(c) THEN "s" ELSE c[k] \o c[k + 1])
BitsOfText(c) == [t |-> "bits", p |-> (CASE c[1] \in {"b", "B"} -> "b" [] c[1] \in {"o", "O"} -> "o" [] OTHER -> "x"), ds |-> SubSeq(c, 3, Len(c) - 1)]
Fuel == 12
RECURSIVE Ev(_, _, _, _, _, _), EvItems(_, _, _, _, _, _, _), ConstVal(_, _, _, _)
(* the value of the expression at e[i] in the body s: [i: index after it, v] *)
EvItems(P, env, s, e, i, f, xs) == IF e[i].h = "end" THEN [i |-> i + 1, v |-> xs]
                                   ELSE LET y == Ev(P, env, s, e, i, f) IN EvItems(P, env, s, e, y.i, f, Append(xs, y.v))
Ev(P, env, s, e, i, f) ==
  LET t == e[i]
      leaf(v) == [i |-> i + 1, v |-> v]
  IN  CASE t.h = "binary" -> LET x == Ev(P, env, s, e, i + 1, f)
                                 y == Ev(P, env, s, e, x.i, f)
                             IN  [i |-> y.i, v |-> X!Apply2(t.s, x.v, y.v)]
        [] t.h = "unary" -> LET x == Ev(P, env, s, e, i + 1, f) IN [x EXCEPT !.v = X!Apply1(t.s, @)]
        [] t.h = "list" -> LET r == EvItems(P, env, s, e, i + 1, f, <<>>)
                           IN  [i |-> r.i, v |-> IF \E k \in DOMAIN r.v : r.v[k].t = "err" THEN X!VErr
                                                 ELSE IF \E k \in DOMAIN r.v : r.v[k].t = "any" THEN X!VAny ELSE [t |-> "list", xs |-> r.v]]
        [] t.h = "call" -> LET r == EvItems(P, env, s, e, i + 1, f, <<>>) IN [i |-> r.i, v |-> X!Call(t.s, r.v)]
        [] t.h = "int" -> leaf(IF t.s # "" THEN X!VAny ELSE IF InInt64([neg |-> FALSE, d |-> t.d]) THEN X!VInt([neg |-> FALSE, d |-> t.d]) ELSE X!VErr)
        [] t.h = "bool" -> leaf(X!VBool(t.s = "true"))
        [] t.h = "float" -> leaf(FloatOf(t.c))
        [] t.h = "str" -> leaf([t |-> "str", v |-> t.s])
        [] t.h = "time" -> leaf(TimeOf(t.c))
        [] t.h = "bits" -> leaf(BitsOfText(t.c))
        [] t.h = "name" -> LET d == DefConst(P, s, t.q, t.s)
                           IN  leaf(CASE d[1] = "none" -> X!VErr [] d[1] = "const" -> ConstVal(P, env, d[2], f) [] OTHER -> env[d[2]][d[3]])
ConstVal(P, env, k, f) == IF f = 0 THEN X!VErr ELSE Ev(P, env, P[k].p, P[k].val, 1, f - 1).v
Value(P, env, s, e) == Ev(P, env, s, e, 1, Fuel).v
Env0(P) == [k \in DOMAIN P |-> <<>>]

(* a value as the value of a property *)
PropValue(v) ==
  CASE v.t = "int" -> [t |-> "int", v |-> v.v]
    [] v.t = "bool" -> [t |-> "bool", b |-> v.v]
    [] v.t = "str" -> [t |-> "str", s |-> v.v]
    [] v.t = "range" -> [t |-> "range", rs |-> <<[l |-> v.l, r |-> v.r]>>]
    [] v.t = "time" -> [t |-> "time", sec |-> v.s, ns |-> v.ns]
    [] v.t = "list" -> IF v.xs # <<>> /\ \A k \in DOMAIN v.xs : v.xs[k].t = "range"
                       THEN [t |-> "ranges", rs |-> [k \in DOMAIN v.xs |-> [l |-> v.xs[k].l, r |-> v.xs[k].r]]] ELSE [t |-> "list"]
    [] v.t \in {"rat", "log"} -> [t |-> "float"]
    [] OTHER -> v                 \* bits, err, any

(* ------------------------------ bindings ------------------------------ *)
RECURSIVE BindParams(_, _, _, _, _, _, _), Envs(_, _, _)
BindParams(P, envi, i, envt, t, pr, k) ==
  IF k > Len(pr) THEN envt
  ELSE LET a == Args(P, i)
           m == ArgFor(a, pr, k)
           v == IF m # 0 THEN Value(P, envi, i, a[m].e) ELSE IF pr[k].e = <<>> THEN X!VErr ELSE Value(P, envt, t, pr[k].e)
       IN  BindParams(P, envi, i, [envt EXCEPT ![t] = Append(@, v)], t, pr, k + 1)
Envs(P, c, es) == IF Len(es) = Len(c) THEN es
                  ELSE LET n == Len(es)
                       IN  Envs(P, c, Append(es, BindParams(P, es[n], c[n], [es[n] EXCEPT ![c[n + 1]] = <<>>], c[n + 1], Params(P, c[n + 1]), 1)))
RECURSIVE OwnDefaults(_, _, _, _, _)
OwnDefaults(P, env, t, pr, k) == IF k > Len(pr) THEN env
                                 ELSE OwnDefaults(P, [env EXCEPT ![t] = Append(@, IF pr[k].e = <<>> THEN X!VErr ELSE Value(P, env, t, pr[k].e))], t, pr, k + 1)
EnvsOf(P, c, env) == Envs(P, c, <<IF P[c[1]].k = "type" THEN OwnDefaults(P, [env EXCEPT ![c[1]] = <<>>], c[1], Params(P, c[1]), 1) ELSE env>>)

(* ------------------------------ functionalities ------------------------------ *)
E(rule, n, part) == [rule |-> rule, n |-> n, part |-> part]
PartOf(rule) == IF rule = "invalid value" THEN "value" ELSE "name"
KindOrder == <<"blackbox", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream", "block">>
Exports == {"block", "bus", "group"}      \* the constants of their bodies are listed
RECURSIVE SetProps(_, _, _, _, _, _), AddConsts(_, _, _, _, _), AddKids(_, _, _, _, _, _, _, _, _), Levels(_, _, _, _, _, _, _, _, _), Func(_, _, _, _, _, _), Select(_, _, _)
(* r: [st: state of Inst.tla, errs, any: some value is unspecified, consts: sequence of [n, v], outs: sequence of [base, out]] *)
SetProps(P, env, ps, b, k, r) ==
  IF k > Len(ps) THEN r
  ELSE LET n == ps[k]
           v == PropValue(Value(P, env, P[n].p, P[n].val))
           s == IF P[n].name \notin I!ValidProps(b) THEN [r.st EXCEPT !.err = "invalid property"]
                ELSE IF v.t = "err" THEN [r.st EXCEPT !.err = "undefined value"]
                ELSE I!SetProp(r.st, b, [name |-> P[n].name, v |-> v])
           r1 == IF v.t = "any" THEN [r EXCEPT !.any = TRUE]
                 ELSE IF s.err # "" THEN [r EXCEPT !.errs = @ \cup {E(s.err, n, PartOf(s.err))}]
                 ELSE [r EXCEPT !.st = s]
       IN  SetProps(P, env, ps, b, k + 1, r1)
AddConsts(P, env, cs, k, r) ==
  IF k > Len(cs) THEN r
  ELSE LET v == ConstVal(P, env, cs[k], Fuel)
           n == P[cs[k]].name
           twice == Idx(r.consts, n) # 0
       IN  AddConsts(P, env, cs, k + 1,
             [r EXCEPT !.consts = Append(@, [n |-> n, v |-> v]), !.any = @ \/ v.t = "any",
                       !.errs = @ \cup (IF v.t = "err" THEN {E("undefined constant", cs[k], "")} ELSE {}) \cup (IF twice THEN {E("constant defined twice", cs[k], "")} ELSE {})])
AddKids(P, env, is, b, bw, path, up, k, r) ==
  IF k > Len(is) THEN r
  ELSE LET f == Func(P, is[k], env, bw, path, up)
           s == I!AddKid(r.st, b, [name |-> P[is[k]].name, base |-> f.base, out |-> f.trig])
           r1 == [r EXCEPT !.errs = @ \cup f.errs, !.any = @ \/ f.any, !.outs = Append(@, [base |-> f.base, out |-> f.out])]
       IN  AddKids(P, env, is, b, bw, path, up, k + 1, IF s.err # "" THEN [r1 EXCEPT !.errs = @ \cup {E(s.err, is[k], "")}] ELSE [r1 EXCEPT !.st = s])
Levels(P, c, es, l, b, bw, path, up, r) ==      \* from the base type, c[Len(c)], to the instance, c[1]
  IF l = 0 THEN r
  ELSE LET r1 == SetProps(P, es[l], Kids(P, c[l], "prop"), b, 1, r)
           r2 == IF b \in Exports THEN AddConsts(P, es[l], Kids(P, c[l], "const"), 1, r1) ELSE r1
           r3 == AddKids(P, es[l], Kids(P, c[l], "inst"), b, bw, path, up, 1, r2)
       IN  Levels(P, c, es, l - 1, b, bw, path, up, r3)
Select(outs, kind, k) == IF k > Len(outs) THEN <<>> ELSE (IF outs[k].base = kind THEN outs[k].out ELSE <<>>) \o Select(outs, kind, k + 1)
RECURSIVE ByKind(_, _)
ByKind(outs, m) == IF m > Len(KindOrder) THEN <<>> ELSE Select(outs, KindOrder[m], 1) \o ByKind(outs, m + 1)
PropNode(P, c, name) == LET s == UNION {Named(P, c[k], "prop", name) : k \in DOMAIN c} IN IF s = {} THEN 0 ELSE First(s)
(* the rules about a whole functionality, located *)
Complete(P, c, st, b, bw) ==
  LET s == I!Finish([st EXCEPT !.err = ""], b, bw)
  IN  IF s.err = "" THEN {}
      ELSE CASE s.err = "value does not fit" -> {E(s.err, PropNode(P, c, n), "value") : n \in {m \in DOMAIN st.set \cap I!ValueProps : ~I!ValueOk(st.set[m], I!Width(st, b, bw))}}
             [] s.err = "enable value without enable" -> {E(s.err, PropNode(P, c, n), "value") : n \in DOMAIN st.set \cap {"enable-init-value", "enable-reset-value"}}
             [] OTHER -> {E(s.err, c[1], "")}
NoFunc == [errs |-> {}, any |-> FALSE, out |-> <<>>, base |-> "?", trig |-> ""]
CountOf(P, env, i) == IF P[i].cnt = <<>> THEN [t |-> "none"] ELSE PropValue(Value(P, env, i, P[i].cnt))
Func(P, i, env, bw, path, up) ==
  LET c == Chain(P, i)
  IN  IF c = <<>> THEN [NoFunc EXCEPT !.errs = {E("unknown type", i, "")}]
      ELSE IF i \in up THEN [NoFunc EXCEPT !.errs = {E("recursive instantiation", i, "")}]
      ELSE LET b == BaseOf(P, c)
               es == EnvsOf(P, c, env)
               here == IF path = "" THEN P[i].name ELSE path \o "/" \o P[i].name
               n == CountOf(P, env, i)
               badcnt == n.t # "none" /\ (IF n.t = "int" THEN n.v.neg ELSE n.t # "any")
               args == {E("undefined argument", c[l], "") : l \in {m \in DOMAIN c : \E k \in DOMAIN Args(P, c[m]) : Value(P, es[m], c[m], Args(P, c[m])[k].e).t = "err"}}
               anyarg == \E l \in DOMAIN c : \E k \in DOMAIN Args(P, c[l]) : Value(P, es[l], c[l], Args(P, c[l])[k].e).t = "any"
               r0 == [st |-> I!St0, errs |-> args \cup (IF badcnt THEN {E("array size", i, "")} ELSE {}), any |-> n.t = "any" \/ anyarg, consts |-> <<>>, outs |-> <<>>]
               r == Levels(P, c, es, Len(c), b, bw, here, up \cup {i}, [r0 EXCEPT !.st = I!St0])
               whole == Complete(P, c, r.st, b, bw)
               ok == r.errs = {} /\ whole = {} /\ ~r.any
               res == IF ok THEN I!Result(r.st, b, bw) ELSE <<>>
               entry == [path |-> here, up |-> path, kind |-> IF b = "bus" THEN "block" ELSE b, name |-> P[i].name, doc |-> P[i].doc, arr |-> IF P[i].cnt = <<>> THEN 0 ELSE 1,
                         cnt |-> IF n.t = "int" THEN n.v ELSE FromInt(1), props |-> res, consts |-> r.consts]
           IN  [errs |-> r.errs \cup whole, any |-> r.any, base |-> IF b = "bus" THEN "bus" ELSE b, out |-> <<entry>> \o ByKind(r.outs, 1),
                trig |-> IF ok /\ b = "irq" THEN res["out-trigger"].s ELSE ""]

(* ------------------------------ programs as a whole ------------------------------ *)
RECURSIVE Items(_, _)
Items(e, i) == IF e[i].h = "end" THEN 0 ELSE 1 + Items(e, Skip(e, i))
WrongCall(e) == \E i \in DOMAIN e : e[i].h = "call" /\ (e[i].s \notin {"bool", "ceil", "floor", "log2", "log10"} \/ Items(e, i + 1) # 1)
StaticErrors(P) ==
  LET dup == {i \in DOMAIN P : P[i].k \in {"const", "type", "inst", "prop"} /\
                \E j \in DOMAIN P : j < i /\ P[j].k = P[i].k /\ P[j].name = P[i].name /\
                   IF P[P[i].p].k = "file" /\ P[P[j].p].k = "file" THEN P[P[i].p].name = P[P[j].p].name ELSE P[i].p = P[j].p}
      confl == {i \in DOMAIN P : P[i].k = "prop" /\ \E j \in DOMAIN P : j < i /\ P[j].k = "prop" /\ P[j].p = P[i].p /\ {P[i].name, P[j].name} = {"width", "range"}}
      fs == {i \in DOMAIN P : P[i].k \in {"type", "inst"}}
      par == {i \in fs : ~ParamsOk(Params(P, i))}
      args == {i \in fs : IF IsBase(P, i) THEN P[i].arg # <<>> ELSE IF ParentOf(P, i) = 0 THEN TRUE ELSE ~ArgsOk(Args(P, i), Params(P, ParentOf(P, i)))}
      basic == {i \in DOMAIN P : P[i].k = "prop" /\ P[P[i].p].k \in {"type", "inst"} /\ IsBase(P, P[i].p) /\ P[i].name \notin I!ValidProps(P[P[i].p].typ)}
      top == {i \in fs : P[i].k = "inst" /\ P[P[i].p].k = "file" /\ IsBase(P, i) /\ ~(P[i].typ = "bus" /\ P[P[i].p].name = "main")}
      imp == {i \in DOMAIN P : P[i].k = "import" /\ P[i].val[1].s \notin Packages(P)}
      twice == {i \in DOMAIN P : P[i].k = "import" /\ \E j \in DOMAIN P : j < i /\ P[j].k = "import" /\ P[j].p = P[i].p /\ Alias(P[j]) = Alias(P[i])}
      call == {i \in DOMAIN P : WrongCall(P[i].cnt) \/ WrongCall(P[i].par) \/ WrongCall(P[i].arg) \/ WrongCall(P[i].val)}
  IN  {E(IF P[i].k = "prop" THEN "property set twice" ELSE "name used twice", i, "name") : i \in dup} \cup {E("width and range", i, "name") : i \in confl} \cup {E("parameters", i, "") : i \in par}
      \cup {E("arguments", i, "") : i \in args} \cup {E("invalid property", i, "name") : i \in basic} \cup {E("package level", i, "") : i \in top} \cup {E("import", i, "") : i \in imp}
      \cup {E("imported twice", i, "") : i \in twice} \cup {E("call", i, "") : i \in call}
(* symbols of the packages which are instantiated on their own *)
Alone(P, i) == /\ P[i].k \in {"type", "inst"} /\ P[P[i].p].k = "file" /\ ~IsBase(P, i)
               /\ IF P[i].k = "type" THEN \A k \in DOMAIN Params(P, i) : Params(P, i)[k].e # <<>> ELSE TRUE
MainOf(P, name) == LET c == UNION {Named(P, f, "inst", name) : f \in Files(P, "main")} IN IF c = {} THEN 0 ELSE First(c)
BusWidth(P, m) == LET c == Chain(P, m)
                      n == IF c = <<>> THEN 0 ELSE PropNode(P, c, "width")
                      es == EnvsOf(P, c, Env0(P))
                      l == CHOOSE k \in DOMAIN c : c[k] = P[n].p
                      v == IF n = 0 THEN X!VErr ELSE Value(P, es[l], P[n].p, P[n].val)
                  IN  IF v.t = "int" THEN (IF IsSmall(v.v) /\ ~v.v.neg /\ v.v.d # <<>> THEN ToInt(v.v) ELSE 32) ELSE 32
Min(a, b) == IF a < b THEN a ELSE b
IdEntry(main, bw) == [path |-> main \o "/ID", up |-> main, kind |-> "static", name |-> "ID", doc |-> "Bus identifier.", arr |-> 0, cnt |-> FromInt(1),
                      props |-> [width |-> I!IntV(Min(32, bw))], consts |-> <<>>]
RECURSIVE InsertId(_, _, _)                \* after the statics of the main bus
InsertId(out, main, id) ==
  LET c == {k \in DOMAIN out : k > 1 /\ out[k].kind \in {"status", "stream", "block"} /\ out[k].path = main \o "/" \o out[k].name}
      p == IF c = {} THEN Len(out) + 1 ELSE First(c)
  IN  SubSeq(out, 1, p - 1) \o <<id>> \o SubSeq(out, p, Len(out))
PkgConsts(P) == [k \in {j \in DOMAIN P : P[j].k = "const" /\ P[P[j].p].k = "file"} |-> [pkg |-> P[P[k].p].name, n |-> P[k].name, v |-> ConstVal(P, Env0(P), k, Fuel)]]
(* arrays the compiler cannot lay out; those of groups are not laid out *)
Unsupported(out, bw) == \E k \in DOMAIN out :
  LET e == out[k]
      wide == BLess(FromInt(bw), e.props["width"].v)
      inner == \E j \in DOMAIN out : out[j].path = e.up /\ out[j].kind = "block"
  IN  /\ e.arr = 1 /\ inner
      /\ CASE e.kind \in {"mask", "irq"} -> TRUE
           [] e.kind = "config" -> ~e.props["atomic"].b \/ wide
           [] e.kind = "static" -> wide
           [] OTHER -> FALSE
(* [errs, lone: errors only of types completed by their instances, any, unsup: not laid out, out: listing, consts: by node] *)
Elaborate(P, name) ==
  LET m == MainOf(P, name)
      se == StaticErrors(P)
      none == [errs |-> se, lone |-> {}, any |-> FALSE, unsup |-> FALSE, out |-> <<>>, consts |-> <<>>]
  IN  IF m = 0 THEN [none EXCEPT !.errs = @ \cup {E("no main bus", 1, "")}]
      ELSE IF \E i \in DOMAIN P : P[i].k \in {"type", "inst"} /\ Chain(P, i) = <<>> THEN [none EXCEPT !.errs = @ \cup {E("unknown type", 1, "")}]
      ELSE LET bw == BusWidth(P, m)
               f == Func(P, m, Env0(P), bw, "", {})
               alone == {i \in DOMAIN P : Alone(P, i) /\ i # m}
               fa == [i \in alone |-> Func(P, i, Env0(P), bw, "", {})]
               lone == UNION {IF P[i].k = "type" THEN {e \in fa[i].errs : e.rule \in I!CompletenessRules} ELSE {} : i \in alone}
               rest == UNION {IF P[i].k = "type" THEN {e \in fa[i].errs : e.rule \notin I!CompletenessRules} ELSE fa[i].errs : i \in alone}
               pc == PkgConsts(P)
               ce == {E("undefined constant", j, "") : j \in {k \in DOMAIN pc : pc[k].v.t = "err"}}
               mb == IF f.base # "bus" THEN {E("main bus", m, "")} ELSE {}
               id == IF \E k \in DOMAIN f.out : f.out[k].path = name \o "/ID" THEN {E("reserved name", m, "")} ELSE {}
               bad == se # {} \/ f.errs # {} \/ rest # {} \/ f.any
           IN  [unsup |-> IF bad THEN FALSE ELSE Unsupported(f.out, bw),
                errs |-> se \cup f.errs \cup rest \cup ce \cup mb \cup id, lone |-> lone,
                any |-> f.any \/ (\E i \in alone : fa[i].any) \/ (\E j \in DOMAIN pc : pc[j].v.t = "any"),
                out |-> InsertId(f.out, name, IdEntry(name, bw)), consts |-> pc]
=============================================================================
