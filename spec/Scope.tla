-------------------------------- MODULE Scope --------------------------------
(* Names, parameters and arguments. A program P is a sequence of nodes:                                  *)
(*  [kind, name, outer, parent, args, params, consts, props, cnt, pkg, imports]                           *)
(* kind: "file", "type" or "inst"; outer: index of the enclosing node (0 for files); parent: [q, n], the    *)
(* name of the parent type, q: alias of an imported package or ""; args: sequence of [n, e]; params:        *)
(* sequence of [n, e] (e = <<>>: no default); consts and props: sequences of [n, e]; cnt: expression or      *)
(* <<>>; pkg and imports (sequence of [n, pkg]): files only. An expression is a sequence of terms            *)
(* [q, n, v] to be added, n = "": the number v.                                                          *)
(*                                                                                                      *)
(* Two semantics: closures (every use of a type has its own environment), and, in ScopeMC, one mutable     *)
(* binding per type, which is overwritten at every use.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Base == {"block", "bus", "config", "group", "mask", "proc", "param", "return", "static", "status", "stream", "irq", "blackbox"}
Consted == {"block", "bus", "group"}            \* base types which export the constants of their bodies
Idx(s, n) == LET c == {i \in DOMAIN s : s[i].n = n} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
FilesOf(P, pkg) == {i \in DOMAIN P : P[i].kind = "file" /\ P[i].pkg = pkg}
PkgOf(P, f, q) == IF q = "" THEN P[f].pkg ELSE LET i == Idx(P[f].imports, q) IN IF i = 0 THEN "" ELSE P[f].imports[i].pkg
None == [at |-> 0, how |-> "none", i |-> 0]
(* ------------------------------ lexical scoping ------------------------------ *)
RECURSIVE Def(_, _, _)
Def(P, s, t) ==
  IF P[s].kind = "file" THEN LET c == {f \in FilesOf(P, PkgOf(P, s, t.q)) : Idx(P[f].consts, t.n) # 0}
                             IN  IF c = {} THEN None ELSE LET f == CHOOSE f \in c : TRUE IN [at |-> f, how |-> "const", i |-> Idx(P[f].consts, t.n)]
  ELSE IF t.q = "" /\ Idx(P[s].consts, t.n) # 0 THEN [at |-> s, how |-> "const", i |-> Idx(P[s].consts, t.n)]
  ELSE IF t.q = "" /\ Idx(P[s].params, t.n) # 0 THEN [at |-> s, how |-> "param", i |-> Idx(P[s].params, t.n)]
  ELSE Def(P, P[s].outer, t)
TypesIn(P, s, n) == {k \in DOMAIN P : P[k].kind = "type" /\ P[k].outer = s /\ P[k].name = n}
RECURSIVE DefType(_, _, _)
DefType(P, s, t) ==
  LET c == IF P[s].kind = "file" THEN UNION {TypesIn(P, f, t.n) : f \in FilesOf(P, PkgOf(P, s, t.q))}
           ELSE IF t.q = "" THEN TypesIn(P, s, t.n) ELSE {}
  IN  IF c # {} THEN CHOOSE k \in c : TRUE ELSE IF P[s].kind = "file" THEN 0 ELSE DefType(P, P[s].outer, t)
IsBase(P, i) == P[i].parent.q = "" /\ P[i].parent.n \in Base
ParentOf(P, i) == IF IsBase(P, i) THEN 0 ELSE DefType(P, P[i].outer, P[i].parent)
(* chain from the node to the type derived from a base type; <<>> if a type is unknown or circular *)
RECURSIVE ChainFrom(_, _, _)
ChainFrom(P, i, acc) ==
  IF \E k \in DOMAIN acc : acc[k] = i THEN <<>>
  ELSE IF IsBase(P, i) THEN Append(acc, i)
  ELSE LET t == ParentOf(P, i) IN IF t = 0 THEN <<>> ELSE ChainFrom(P, t, Append(acc, i))
Chain(P, i) == ChainFrom(P, i, <<>>)

(* ------------------------------ values ------------------------------ *)
(* a value is <<n>>, or <<>> if it is undefined *)
Plus(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE <<x[1] + y[1]>>
RECURSIVE Val(_, _, _, _, _), SumTerms(_, _, _, _, _, _)
Val(P, env, s, e, fuel) == IF fuel = 0 THEN <<>> ELSE SumTerms(P, env, s, e, 1, fuel)
SumTerms(P, env, s, e, k, fuel) ==
  IF k > Len(e) THEN <<0>>
  ELSE LET t == e[k]
           d == Def(P, s, t)
           v == IF t.n = "" THEN <<t.v>>
                ELSE CASE d.how = "none" -> <<>>
                       [] d.how = "const" -> Val(P, env, d.at, P[d.at].consts[d.i].e, fuel - 1)
                       [] OTHER -> env[d.at][d.i]
       IN  Plus(v, SumTerms(P, env, s, e, k + 1, fuel))
Fuel == 9
Value(P, env, s, e) == Val(P, env, s, e, Fuel)
Env0(P) == [k \in DOMAIN P |-> <<>>]

(* ------------------------------ argument lists ------------------------------ *)
ArgFor(P, i, t, k) ==       \* index of the argument of node i for parameter k of type t, or 0
  LET a == P[i].args
      pos == IF k <= Len(a) THEN a[k].n = "" ELSE FALSE
  IN  IF pos THEN k ELSE Idx(a, P[t].params[k].n)
ArgsOk(P, i, t) ==
  LET a == P[i].args
      pr == P[t].params
      named == {k \in DOMAIN a : a[k].n # ""}
      npos == Len(a) - Cardinality(named)
  IN  /\ \A k \in named : k > npos                                              \* positional ones first
      /\ npos <= Len(pr)                                                        \* not too many
      /\ \A k \in named : Idx(pr, a[k].n) > npos                                \* known, not given twice
      /\ \A k, m \in named : a[k].n = a[m].n => k = m
      /\ \A k \in DOMAIN pr : pr[k].e = <<>> => ArgFor(P, i, t, k) # 0            \* none missing
ParamsOk(P, t) == LET pr == P[t].params
                  IN  /\ \A k, m \in DOMAIN pr : pr[k].n = pr[m].n => k = m
                      /\ \A k, m \in DOMAIN pr : k < m /\ pr[k].e # <<>> => pr[m].e # <<>>
StaticOk(P, i) ==
  CASE P[i].kind = "file" -> \A f \in FilesOf(P, P[i].pkg) : \A k \in DOMAIN P[i].consts, m \in DOMAIN P[f].consts :
                               P[i].consts[k].n = P[f].consts[m].n => f = i /\ k = m
    [] OTHER -> /\ ParamsOk(P, i)
                /\ \A k, m \in DOMAIN P[i].consts : P[i].consts[k].n = P[i].consts[m].n => k = m
                \* symbols of one kind have different names, in the files of a package, or in a body
                /\ \A k \in DOMAIN P : IF P[k].kind = P[i].kind /\ P[k].name = P[i].name /\ k # i
                                       THEN IF P[P[i].outer].kind = "file" /\ P[P[k].outer].kind = "file" THEN P[P[i].outer].pkg # P[P[k].outer].pkg
                                            ELSE P[k].outer # P[i].outer
                                       ELSE TRUE
                /\ IF IsBase(P, i) THEN P[i].args = <<>>
                   ELSE IF ParentOf(P, i) = 0 THEN FALSE ELSE ArgsOk(P, i, ParentOf(P, i))
StaticError(P) == \E i \in DOMAIN P : ~StaticOk(P, i)

(* ------------------------------ closures ------------------------------ *)
(* environments of the chain c, given that of c[1] *)
RECURSIVE BindParams(_, _, _, _, _, _), Envs(_, _, _)
BindParams(P, envi, i, envt, t, k) ==    \* envt: bindings of the first k - 1 parameters of t
  IF k > Len(P[t].params) THEN envt
  ELSE LET a == ArgFor(P, i, t, k)
           v == IF a # 0 THEN Value(P, envi, i, P[i].args[a].e) ELSE Value(P, envt, t, P[t].params[k].e)
       IN  BindParams(P, envi, i, [envt EXCEPT ![t] = Append(@, v)], t, k + 1)
Envs(P, c, es) == IF Len(es) = Len(c) THEN es
                  ELSE LET n == Len(es)
                       IN  Envs(P, c, Append(es, BindParams(P, es[n], c[n], [es[n] EXCEPT ![c[n + 1]] = <<>>], c[n + 1], 1)))
(* a type instantiated on its own takes its defaults *)
RECURSIVE OwnDefaults(_, _, _, _)
OwnDefaults(P, env, t, k) == IF k > Len(P[t].params) THEN env
                             ELSE OwnDefaults(P, [env EXCEPT ![t] = Append(@, Value(P, env, t, P[t].params[k].e))], t, k + 1)
EnvsOf(P, i, env) == Envs(P, Chain(P, i), <<IF P[i].kind = "type" THEN OwnDefaults(P, [env EXCEPT ![i] = <<>>], i, 1) ELSE env>>)
BaseOf(P, i) == LET c == Chain(P, i) IN P[c[Len(c)]].parent.n
Kids(P, s) == {k \in DOMAIN P : P[k].kind = "inst" /\ P[k].outer = s}
(* items: the count of the instance, then, from the base type to the instance, properties and constants *)
LevelItems(P, env, s, b) ==
  [k \in 1 .. Len(P[s].props) |-> [what |-> "prop", n |-> P[s].props[k].n, v |-> Value(P, env, s, P[s].props[k].e)]] \o
  (IF b \in Consted THEN [k \in 1 .. Len(P[s].consts) |-> [what |-> "const", n |-> P[s].consts[k].n, v |-> Value(P, env, s, P[s].consts[k].e)]] ELSE <<>>)
RECURSIVE Concat(_, _)
Concat(f(_), n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f(n)
Items(P, i, env) ==
  LET c == Chain(P, i)
      es == EnvsOf(P, i, env)
  IN  (IF P[i].cnt = <<>> THEN <<>> ELSE <<[what |-> "count", n |-> "", v |-> Value(P, env, i, P[i].cnt)]>>) \o
      Concat(LAMBDA k : LevelItems(P, es[Len(c) + 1 - k], c[Len(c) + 1 - k], BaseOf(P, i)), Len(c))
(* inner instances: [i, env], unordered *)
Inner(P, i, env) == LET c == Chain(P, i)
                        es == EnvsOf(P, i, env)
                    IN  UNION {{[i |-> k, env |-> es[l]] : k \in Kids(P, c[l])} : l \in DOMAIN c}
BadArgs(P, i, env) == LET c == Chain(P, i)
                          es == EnvsOf(P, i, env)
                      IN  \E l \in DOMAIN c : \E k \in 1 .. Len(P[c[l]].args) : Value(P, es[l], c[l], P[c[l]].args[k].e) = <<>>
TwiceConst(it) == \E k, m \in DOMAIN it : k < m /\ it[k].what = "const" /\ it[m].what = "const" /\ it[k].n = it[m].n
TwiceProp(it) == \E k, m \in DOMAIN it : k < m /\ it[k].what = "prop" /\ it[m].what = "prop" /\ it[k].n = it[m].n
BadInst(P, i, env) == IF Chain(P, i) = <<>> THEN TRUE
                      ELSE LET it == Items(P, i, env)
                           IN  BadArgs(P, i, env) \/ TwiceConst(it) \/ TwiceProp(it) \/ \E k \in DOMAIN it : it[k].v = <<>>
RECURSIVE BadTree(_, _, _, _)
BadTree(P, i, env, up) == IF i \in up THEN TRUE         \* recursive instantiation
                          ELSE IF BadInst(P, i, env) THEN TRUE
                          ELSE \E x \in Inner(P, i, env) : BadTree(P, x.i, x.env, up \cup {i})
(* symbols of packages which are instantiated: instances, and types derived from other types *)
Alone(P, i) == /\ P[i].kind \in {"type", "inst"} /\ P[P[i].outer].kind = "file" /\ ~IsBase(P, i)
               /\ \A k \in DOMAIN P[i].params : P[i].params[k].e # <<>>
BadConsts(P) == \E f \in DOMAIN P : P[f].kind = "file" /\ \E k \in DOMAIN P[f].consts : Value(P, Env0(P), f, P[f].consts[k].e) = <<>>
Bad(P, main) == \/ StaticError(P) \/ BadConsts(P) \/ BadTree(P, main, Env0(P), {})
                \/ \E i \in DOMAIN P : Alone(P, i) /\ BadTree(P, i, Env0(P), {})
=============================================================================
