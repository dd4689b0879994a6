------------------------------ MODULE InstTrace ------------------------------
(* Recorded compilations, checked against Inst.tla. An event holds the functionalities of a description,  *)
(* inner ones before outer ones: [name, base, up (1: package level), abstract (a type, not an instance),   *)
(* cnt, levels: sequence of [props, kids (indices)], found, props (recorded)]; each step sets one property *)
(* or adds one inner functionality of one level.                                                        *)
EXTENDS Inst, TLC, Json
CONSTANT PROP
VARIABLES i, n, lv, p, st, done, lone      \* lone: a type whose own level of rules is completed by instances
vars == <<i, n, lv, p, st, done, lone>>
NoLone == [base |-> "", rule |-> ""]
Trace == ndJsonDeserialize("trace.ndjson")
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[i].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)

Init == i = 1 /\ n = 1 /\ lv = 1 /\ p = 1 /\ st = St0 /\ done = <<>> /\ lone = NoLone
Ev == Trace[i]
Node == Ev.nodes[n]
Level == Node.levels[lv]
NSteps(l) == Len(l.props) + Len(l.kids)
InNode == i <= Len(Trace) /\ n <= Len(Ev.nodes)
Apply == /\ InNode /\ lv <= Len(Node.levels) /\ p <= NSteps(Level)
         /\ IF p <= Len(Level.props) THEN st' = SetProp(st, Node.base, Level.props[p])
            ELSE LET k == Level.kids[p - Len(Level.props)]
                 IN  st' = AddKid(st, Node.base, [name |-> Ev.nodes[k].name, base |-> Ev.nodes[k].base, out |-> done[k].out])
         /\ p' = p + 1 /\ UNCHANGED <<i, n, lv, done, lone>>
NextLevel == /\ InNode /\ lv <= Len(Node.levels) /\ p > NSteps(Level)
             /\ lv' = lv + 1 /\ p' = 1 /\ UNCHANGED <<i, n, st, done, lone>>
(* rules about the place and the count of a functionality *)
Place == IF Node.base \notin BaseTypes THEN "unknown type"
         ELSE IF Node.up = 1 /\ Len(Node.levels) = 1 /\ Node.base # "bus" THEN "package level"
         ELSE IF Node.main = 1 /\ Node.base # "bus" THEN "main bus"
         ELSE IF Node.cnt.t # "none" /\ (IF Node.cnt.t = "int" THEN Node.cnt.v.neg ELSE TRUE) THEN "array size" ELSE ""
EndNode == /\ InNode /\ lv > Len(Node.levels)
           /\ LET f == Finish(st, Node.base, Ev.bw)
                  e == IF Place # "" THEN Place ELSE f.err
                  alone == Node.abstract = 1 /\ st.err = "" /\ e \in CompletenessRules      \* the type is completed by its instances
                  err == IF alone THEN "" ELSE e
                  r == IF e = "" THEN Result(st, Node.base, Ev.bw) ELSE <<>>
              IN  /\ done' = Append(done, [err |-> err, out |-> IF e = "" /\ Node.base = "irq" THEN r["out-trigger"].s ELSE ""])
                  /\ lone' = IF alone THEN [base |-> Node.base, rule |-> e] ELSE lone
                  /\ IF PROP = "C08" /\ Ev.rc = 0 /\ e = "" /\ Node.found = 1
                     THEN \A m \in DOMAIN r : Require(IF m \in DOMAIN Node.props THEN SameValue(r[m], Node.props[m]) ELSE FALSE, "property",
                                                      [name |-> Node.name, base |-> Node.base, property |-> m, expected |-> r[m],
                                                       got |-> IF m \in DOMAIN Node.props THEN Node.props[m] ELSE None])
                     ELSE TRUE
           /\ n' = n + 1 /\ lv' = 1 /\ p' = 1 /\ st' = St0 /\ UNCHANGED i
Errors == {done[k].err : k \in DOMAIN done} \ {""}
Twice == {"property set twice", "width and range"}
EndFile == /\ i <= Len(Trace) /\ n > Len(Ev.nodes)
           /\ LET what == [rc |-> Ev.rc, errors |-> Errors]
              IN  CASE PROP = "C08" -> Require(Ev.rc = 1 \/ Errors \cap Twice = {}, "a property set twice is accepted", what)
                    [] PROP = "C11" ->
                         IF Errors # {} THEN Require(Ev.rc = 1, "an invalid description is accepted", what)
                         ELSE IF lone # NoLone THEN Require(Ev.rc = 0, "a type completed by its instance is rejected", lone)
                         ELSE Require(Ev.rc = 0, "a valid description is rejected", [rc |-> Ev.rc, stderr |-> Ev.stderr])
                    [] OTHER -> TRUE
           /\ IF PROP = "C11" THEN Require(IF Ev.rc = 0 THEN Ev.json = 1 ELSE Ev.json = 0 /\ Ev.msg = 1, "output and exit status disagree",
                                           [rc |-> Ev.rc, json |-> Ev.json, msg |-> Ev.msg]) ELSE TRUE
           /\ i' = i + 1 /\ n' = 1 /\ lv' = 1 /\ p' = 1 /\ st' = St0 /\ done' = <<>> /\ lone' = NoLone
Next == Apply \/ NextLevel \/ EndNode \/ EndFile
Spec == Init /\ [][Next]_vars
RECURSIVE SumOf(_, _)
SumOf(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + SumOf(f, k - 1)
NodeSteps(nd) == 1 + SumOf(LAMBDA l : 1 + NSteps(nd.levels[l]), Len(nd.levels))
EvSteps(e) == 1 + SumOf(LAMBDA k : NodeSteps(e.nodes[k]), Len(e.nodes))
Consumed == TLCGet("stats").diameter = 1 + SumOf(LAMBDA k : EvSteps(Trace[k]), Len(Trace))
=============================================================================
