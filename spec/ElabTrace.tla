------------------------------ MODULE ElabTrace ------------------------------
(* Compiled programs, checked against Elab.tla. An event is [files: [name, pkg, x: characters], main, rc, out: listing  *)
(* of the main bus, consts: constants of the packages, loc: the location the message names]. Each file is read token    *)
(* by token and parsed; the last step elaborates. PROP = "C18": the listing and the constants are those of the          *)
(* description; PROP = "C19": the message of a description with a wrong property shows that property; PROP = "C15": the    *)
(* verdict on a description, malformed, invalid or valid, is a diagnosis or a document.                                   *)
EXTENDS Elab, Json
CONSTANT PROP
VARIABLES g, n, st, P
vars == <<g, n, st, P>>
Trace == ndJsonDeserialize("trace.ndjson")
Case == Trace[g]
Text_ == Case.files[n].x
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Case.ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
Init == g = 1 /\ n = 1 /\ st = Start /\ P = <<>>

(* ------------------------------ listings ------------------------------ *)
SameConst(e, o) == e.n = o.nm /\ X!Matches(e.v, o)
Listed(c) == c.v.t \in {"int", "bool", "str", "rat", "log"} \/ (c.v.t = "list" /\ (IF c.v.t = "list" THEN X!AllT(c.v.xs, "int") \/ X!AllT(c.v.xs, "bool") ELSE FALSE))
SameConsts(es, os) ==       \* a function to [n, v] and a set of [nm, t, ...]
  LET ls == {k \in DOMAIN es : Listed(es[k])}
  IN  /\ \A k \in ls : \E o \in os : SameConst(es[k], o)
      /\ Cardinality(os) = Cardinality(ls)
SeqSet(s) == {s[k] : k \in DOMAIN s}
SameProps(e, o) == \A p \in DOMAIN e : IF p \in DOMAIN o THEN I!SameValue(e[p], o[p]) ELSE FALSE
Diff(e, o) == CASE e.path # o.path \/ e.kind # o.kind -> "the functionality"
                [] e.name # o.name -> "name"
                [] e.doc # o.doc -> "documentation"
                [] e.arr # o.arr -> "array flag"
                [] e.cnt # o.cnt -> "count"
                [] ~SameProps(e.props, o.props) -> "property"
                [] ~SameConsts(e.consts, SeqSet(o.consts)) -> "constants"
                [] OTHER -> ""
Brief(e) == [path |-> e.path, kind |-> e.kind, name |-> e.name, doc |-> e.doc, arr |-> e.arr, cnt |-> e.cnt, props |-> ToString(e.props), consts |-> ToString(e.consts)]
Nothing == [path |-> "nothing"]
WhereIn(os, e) == LET c == {k \in DOMAIN os : os[k].path = e.path /\ os[k].kind = e.kind} IN IF c = {} THEN 0 ELSE First(c)
(* the functionalities of the description, each once; those of one kind in the order of their instantiation (blocks are sorted by size) *)
CheckListing(es, os) ==
  LET at == [k \in DOMAIN es |-> WhereIn(os, es[k])]
      miss == {k \in DOMAIN es : at[k] = 0}
      extra == DOMAIN os \ {at[k] : k \in DOMAIN es}
      bad == {k \in DOMAIN es : Diff(es[k], os[at[k]]) # ""}
      k == First(bad)
      swapped == {j \in DOMAIN es : es[j].kind # "block" /\ \E m \in DOMAIN es : m < j /\ es[m].up = es[j].up /\ es[m].kind = es[j].kind /\ at[m] > at[j]}
  IN  IF miss # {} THEN Report("a functionality is missing", Brief(es[First(miss)]))
      ELSE IF extra # {} THEN Report("a functionality is not described", Brief(os[First(extra)]))
      ELSE IF bad # {} THEN Report("the listing differs: " \o Diff(es[k], os[at[k]]), [expected |-> Brief(es[k]), got |-> Brief(os[at[k]])])
      ELSE IF swapped # {} THEN Report("the order differs", Brief(es[First(swapped)])) ELSE TRUE
CheckPkgs(pc, os) == \A p \in Packages(P) \cup {os[k].pkg : k \in DOMAIN os} :
  LET es == [k \in {j \in DOMAIN pc : pc[j].pkg = p} |-> pc[k]]
      o == {os[k] : k \in {j \in DOMAIN os : os[j].pkg = p}}
  IN  Require(SameConsts(es, o), "the constants of a package differ", [package |-> p, expected |-> ToString(es), got |-> ToString(o)])

(* ------------------------------ locations ------------------------------ *)
LineStarts(x) == LET q == SelectSeq([k \in 1 .. Len(x) |-> k], LAMBDA k : x[k] = "\n") IN <<1>> \o [k \in DOMAIN q |-> q[k] + 1]
LineEnd(x, i) == Find(x, i, {"\n"}) - 1
Shown(x, t) == LET a == LastNl(x, 1, t.s - 1) + 1 IN Text(x, a, LineEnd(x, a))
To(x, s, e, c) == LET le == LineEnd(x, LastNl(x, 1, s - 1) + 1)
                      last == IF e < le THEN e ELSE le
                  IN  c + (IF last > s THEN last - s ELSE 0)
FileOf(i) == Cardinality({j \in 1 .. File(P, i) : P[j].k = "file"})
Where(e) == LET i == e.n
                x == Case.files[FileOf(i)].x
                a == IF e.part = "value" THEN P[i].vs ELSE P[i].t
                z == IF e.part = "value" THEN P[i].ve ELSE P[i].t
            IN  [f |-> Case.files[FileOf(i)].name, l |-> a.l, c |-> a.c, line |-> Shown(x, a), from |-> a.c, to |-> To(x, a.s, z.e, a.c)]
InBus(e) == IF P[e.n].k # "prop" THEN FALSE ELSE P[e.n].name = "width" /\ LET c == Chain(P, P[e.n].p) IN IF c = <<>> THEN TRUE ELSE BaseOf(P, c) = "bus"
(* any message that shows a line shows that line of that file, and marks a part of it *)
ShownLine(l) ==
  IF l.line = "" /\ l.from = 0 THEN TRUE
  ELSE LET fs == {k \in DOMAIN Case.files : Case.files[k].name = l.f}
       IN  Require(fs # {} /\ \A k \in fs : LET x == Case.files[k].x
                                           ls == LineStarts(x)
                                       IN  IF l.l \notin DOMAIN ls THEN FALSE
                                           ELSE LET e == LineEnd(x, ls[l.l]) IN Text(x, ls[l.l], e) = l.line /\ l.c = l.from /\ l.from <= l.to /\ l.to <= e - ls[l.l] + 2,
                   "the message shows something else", l)
Declared == {"name used twice", "constant defined twice", "package level", "arguments", "parameters", "array size", "mixed inner functionalities", "missing property", "invalid inner functionality", "imported twice", "import", "call"}
Marks(i, l, exact) == /\ l.f = Case.files[FileOf(i)].name
                      /\ l.l = P[i].t.l
                      /\ IF exact THEN l.c = P[i].t.c ELSE l.c >= P[i].t.c
Declares(e, l) == IF e.rule = "mixed inner functionalities" THEN Marks(e.n, l, TRUE) \/ Marks(P[e.n].p, l, TRUE)
                  ELSE Marks(e.n, l, e.part = "name")
Located == {"invalid property", "invalid value", "property set twice", "width and range", "value does not fit", "enable value without enable"}

Judge(r) ==
  /\ CASE PROP = "C18" ->
            IF r.errs # {} \/ r.lone # {} \/ r.any THEN TRUE
            ELSE IF Case.rc = 1 /\ ~r.unsup THEN Report("a valid description is rejected", Case.stderr)
            ELSE IF Case.rc # 0 THEN TRUE
            ELSE CheckListing(r.out, Case.out) /\ CheckPkgs(r.consts, Case.consts)
       [] PROP = "C19" ->
            IF Case.rc # 1 THEN TRUE
            ELSE /\ ShownLine(Case.loc)
                 /\ IF r.errs = {} \/ r.lone # {} \/ r.any THEN TRUE
                    ELSE IF \A e \in r.errs : e.rule \in Located /\ ~InBus(e)
                      THEN Require(\E e \in r.errs : Where(e) = Case.loc, "the message does not show the wrong property",
                                   [expected |-> {[rule |-> e.rule, at |-> Where(e)] : e \in r.errs}, got |-> Case.loc])
                    ELSE IF \A e \in r.errs : e.rule \in Declared
                      THEN Require(\E e \in r.errs : Declares(e, Case.loc) \/ Declares(e, Case.prefix), "the message does not show the wrong declaration",
                                   [expected |-> {[rule |-> e.rule, f |-> Case.files[FileOf(e.n)].name, at |-> P[e.n].t] : e \in r.errs}, got |-> Case.loc, prefix |-> Case.prefix])
                    ELSE TRUE
       [] PROP \in {"C11", "C15"} ->
            IF Case.rc \notin {0, 1} \/ r.any THEN TRUE      \* crashes are judged by OutcomeTrace
            ELSE IF r.errs # {} THEN Require(Case.rc = 1, "an invalid description is not diagnosed", {e.rule : e \in r.errs})
            ELSE IF r.lone # {} THEN TRUE
            ELSE IF r.unsup THEN Require(Case.rc = 1, "an array which cannot be laid out is not diagnosed", Case.stderr)
            ELSE Require(Case.rc = 0, "a valid description is rejected", Case.stderr)
       [] OTHER -> TRUE
  /\ PrintT("VF " \o ToJson([ev |-> Case.ev, rule |-> "", what |-> IF r.any THEN "unspecified" ELSE IF r.errs = {} THEN (IF r.lone # {} THEN "lone" ELSE "valid")
                                                                 ELSE IF \A e \in r.errs : e.rule \in Located /\ ~InBus(e) THEN "wrong property" ELSE "invalid",
                             errs |-> {e.rule : e \in r.errs}]))
LexOne == g <= Len(Trace) /\ n <= Len(Case.files) /\ ~st.done /\ st' = LexStep(Text_, st) /\ UNCHANGED <<g, n, P>>
ParseOne ==
  /\ g <= Len(Trace) /\ n <= Len(Case.files) /\ st.done
  /\ LET r == IF st.err.k # "" THEN [err |-> st.err, N |-> <<>>] ELSE ParseTokens(Text_, st.T)
     IN  IF r.err.k # "" THEN /\ PROP = "C15" => Require(Case.rc # 0, "a malformed description is not diagnosed", r.err.k)
                              /\ PrintT("VF " \o ToJson([ev |-> Case.ev, rule |-> "", what |-> "malformed", errs |-> {}]))
                              /\ g' = g + 1 /\ n' = 1 /\ P' = <<>>
         ELSE n' = n + 1 /\ P' = AddFile(P, Case.files[n].pkg, r.N) /\ g' = g
  /\ st' = Start
ElabOne == /\ g <= Len(Trace) /\ n > Len(Case.files)
           /\ Judge(Elaborate(P, Case.main))
           /\ g' = g + 1 /\ n' = 1 /\ P' = <<>> /\ UNCHANGED st
Next == LexOne \/ ParseOne \/ ElabOne
Spec == Init /\ [][Next]_vars
Finished == g > Len(Trace)
NotStuck == ENABLED Next \/ Finished
=============================================================================
