-------------------------------- MODULE Inst --------------------------------
(* Instantiation: the chain of types of a functionality is walked from the base type to the instance;    *)
(* each level sets properties and adds inner functionalities, one per step; at the end mandatory          *)
(* properties and widths of values are checked and defaults are filled in.                              *)
(*                                                                                                     *)
(* Property values: [t: "int", v] ["bool", b] ["str", s] ["bits", p, ds] ["time", sec, ns]                *)
(* ["range", rs] (rs: sequence of [l, r]; "ranges" for a list of them) ["float"] ["list"] (other lists)    *)
EXTENDS BitStr, FiniteSets

BaseTypes == {"blackbox", "block", "bus", "config", "group", "irq", "mask", "param", "proc", "return", "static", "status", "stream"}
ValidProps(b) ==
  CASE b = "blackbox" -> {"size"}
    [] b = "block"    -> {"align", "masters", "reset"}
    [] b = "bus"      -> {"align", "masters", "reset", "width"}
    [] b = "config"   -> {"atomic", "init-value", "range", "read-value", "reset-value", "width"}
    [] b = "group"    -> {"virtual"}
    [] b = "irq"      -> {"add-enable", "clear", "enable-init-value", "enable-reset-value", "in-trigger", "out-trigger"}
    [] b = "mask"     -> {"atomic", "init-value", "read-value", "reset-value", "width"}
    [] b = "param"    -> {"range", "width"}
    [] b = "proc"     -> {"delay"}
    [] b = "return"   -> {"width"}
    [] b = "static"   -> {"init-value", "read-value", "reset-value", "width"}
    [] b = "status"   -> {"atomic", "read-value", "width"}
    [] b = "stream"   -> {"delay"}
    [] OTHER -> {}
ValidInner(b) ==
  CASE b \in {"block", "bus"}  -> {"blackbox", "block", "config", "group", "irq", "mask", "proc", "static", "status", "stream"}
    [] b = "group"             -> {"config", "irq", "mask", "param", "return", "static", "status"}
    [] b \in {"proc", "stream"} -> {"param", "return"}
    [] OTHER -> {}
ValueProps == {"init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value"}

Positive(x) == ~x.neg /\ x.d # <<>>
Natural(x) == ~x.neg
PowerOf2(x) == \E k \in 0 .. 62 : x = BPow(Two, k)
RangeOk(r) == ~r.l.neg /\ BLeq(r.l, r.r)
(* type and domain of the value of a property *)
PropOk(n, v) ==
  CASE n \in {"add-enable", "atomic", "virtual"} -> v.t = "bool"
    [] n = "align" -> IF v.t = "int" THEN Positive(v.v) /\ PowerOf2(v.v) ELSE FALSE
    [] n = "masters" -> IF v.t = "int" THEN Positive(v.v) ELSE FALSE
    [] n \in {"width", "size"} -> IF v.t = "int" THEN Natural(v.v) ELSE FALSE
    [] n = "clear" -> IF v.t = "str" THEN v.s \in {"Explicit", "On Read"} ELSE FALSE
    [] n \in {"in-trigger", "out-trigger"} -> IF v.t = "str" THEN v.s \in {"Edge", "Level"} ELSE FALSE
    [] n = "reset" -> IF v.t = "str" THEN v.s \in {"Sync", "Async"} ELSE FALSE
    [] n = "delay" -> v.t = "time"
    [] n \in ValueProps -> v.t \in {"int", "bits"}
    [] n = "range" -> CASE v.t = "int" -> Natural(v.v)
                        [] v.t \in {"range", "ranges"} -> v.rs # <<>> /\ \A i \in DOMAIN v.rs : RangeOk(v.rs[i])
                        [] OTHER -> FALSE
    [] OTHER -> FALSE

(* ------------------------------ the machine ------------------------------ *)
(* set: property -> value; kids: names and base types (and out-triggers) of the inner functionalities in   *)
(* the order of instantiation; err: first violated rule                                                 *)
St0 == [set |-> <<>>, kids |-> <<>>, err |-> ""]
Has(st, n) == n \in DOMAIN st.set
Error(st, e) == [st EXCEPT !.err = e]

SetProp(st, b, p) ==
  IF st.err # "" THEN st
  ELSE IF p.name \notin ValidProps(b) THEN Error(st, "invalid property")
  ELSE IF ~PropOk(p.name, p.v) THEN Error(st, "invalid value")
  ELSE IF Has(st, p.name) THEN Error(st, "property set twice")
  ELSE IF (p.name = "width" /\ Has(st, "range")) \/ (p.name = "range" /\ Has(st, "width")) THEN Error(st, "width and range")
  ELSE [st EXCEPT !.set = [n \in DOMAIN @ \cup {p.name} |-> IF n = p.name THEN p.v ELSE @[n]]]

(* functionalities which may share a group or a stream *)
Class(outer, b) == IF outer = "group" THEN (IF b \in {"irq", "param", "return"} THEN b ELSE "reg")
                   ELSE IF outer = "stream" THEN b ELSE ""
AddKid(st, b, k) ==      \* k: [name, base, out]
  IF st.err # "" THEN st
  ELSE IF k.base \notin ValidInner(b) THEN Error(st, "invalid inner functionality")
  ELSE IF \E i \in DOMAIN st.kids : st.kids[i].name = k.name THEN Error(st, "name used twice")
  ELSE IF \E i \in DOMAIN st.kids : Class(b, st.kids[i].base) # Class(b, k.base) THEN Error(st, "mixed inner functionalities")
  ELSE [st EXCEPT !.kids = Append(@, k)]

RangeOfProp(v) == IF v.t = "int" THEN <<[l |-> BZero, r |-> v.v]>> ELSE v.rs
Width(st, b, bw) ==
  CASE b = "irq" -> 1
    [] Has(st, "width") -> ToInt(st.set["width"].v)
    [] Has(st, "range") -> RangeWidth(RangeOfProp(st.set["range"]))
    [] OTHER -> bw
(* the rules about the functionality as a whole *)
Finish(st, b, bw) ==
  IF st.err # "" THEN st
  ELSE IF b = "bus" /\ Has(st, "width") /\ ~Positive(st.set["width"].v) THEN Error(st, "bus width")
  ELSE IF b = "static" /\ ~Has(st, "init-value") THEN Error(st, "missing property")
  ELSE IF b = "blackbox" /\ (IF Has(st, "size") THEN ~Positive(st.set["size"].v) ELSE TRUE) THEN Error(st, "missing property")
  ELSE IF b = "group" /\ st.kids = <<>> THEN Error(st, "empty group")
  ELSE IF b = "irq" /\ (Has(st, "enable-init-value") \/ Has(st, "enable-reset-value"))
          /\ (IF Has(st, "add-enable") THEN ~st.set["add-enable"].b ELSE TRUE) THEN Error(st, "enable value without enable")
  ELSE IF \E n \in DOMAIN st.set \cap ValueProps : ~ValueOk(st.set[n], Width(st, b, bw)) THEN Error(st, "value does not fit")
  ELSE IF b = "group" /\ (IF Has(st, "virtual") THEN st.set["virtual"].b ELSE FALSE)
          /\ Class(b, st.kids[1].base) # "reg" THEN Error(st, "virtual group")
  ELSE IF b = "group" /\ Class(b, st.kids[1].base) = "irq" /\ \E i \in DOMAIN st.kids : st.kids[i].out # st.kids[1].out
       THEN Error(st, "mixed out-triggers")
  ELSE st
CompletenessRules == {"missing property", "empty group", "enable value without enable", "value does not fit"}

(* -------------------- properties of a valid functionality -------------------- *)
None == [t |-> "none"]
Bool(x) == [t |-> "bool", b |-> x]
Str(x) == [t |-> "str", s |-> x]
IntV(n) == [t |-> "int", v |-> FromInt(n)]
Or(st, n, dflt) == IF Has(st, n) THEN st.set[n] ELSE dflt
Val(st, n, w) == IF Has(st, n) THEN LET x == ValueOf(st.set[n], w) IN [t |-> "bits", p |-> x.p, ds |-> x.ds] ELSE None
Shown(b) == CASE b = "bus" -> ValidProps(b)
              [] OTHER -> ValidProps(b)
Result(st, b, bw) ==
  LET w == Width(st, b, bw)
  IN  [n \in Shown(b) |->
        CASE n \in {"atomic"} -> Or(st, n, Bool(TRUE))
          [] n \in {"add-enable", "virtual"} -> Or(st, n, Bool(FALSE))
          [] n = "clear" -> Or(st, n, Str("Explicit"))
          [] n \in {"in-trigger", "out-trigger"} -> Or(st, n, Str("Level"))
          [] n = "reset" -> Or(st, n, Str(""))
          [] n = "align" -> Or(st, n, IntV(0))
          [] n = "masters" -> Or(st, n, IntV(1))
          [] n = "size" -> Or(st, n, IntV(0))
          [] n = "delay" -> Or(st, n, None)
          [] n = "width" -> IF b = "bus" THEN Or(st, n, IntV(32)) ELSE IntV(w)
          [] n = "range" -> IF Has(st, n) THEN [t |-> "range", rs |-> RangeOfProp(st.set[n])] ELSE None
          [] n \in ValueProps -> Val(st, n, w)]
SameValue(e, g) ==      \* expected and observed
  IF e.t # g.t THEN FALSE
  ELSE IF e.t = "bits" THEN (IF g.p \in {"b", "o", "x"} THEN BitsOf(e) = BitsOf(g) ELSE FALSE)
  ELSE e = g
=============================================================================
