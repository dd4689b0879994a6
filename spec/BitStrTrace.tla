----------------------------- MODULE BitStrTrace -----------------------------
(* Recorded *-value properties and ranges, one event per step:                                          *)
(* [op: "value", w, v, rc, got]  a functionality of width w with one value property                      *)
(* [op: "range", rs, rc, width]  a functionality without width whose range is rs                         *)
EXTENDS BitStr, TLC, Json
VARIABLE i
Trace == ndJsonDeserialize("trace.ndjson")
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[i].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)

(* an integer may be written in any base *)
SameValue(e) == IF e.got.p \notin {"b", "o", "x"} THEN FALSE
                ELSE IF e.v.t = "int" THEN BitsOf(e.got) = BitsOf(ValueOf(e.v, e.w)) ELSE e.got = ValueOf(e.v, e.w)
Rules(e) ==
  CASE e.op = "value" ->
         IF ValueOk(e.v, e.w)
         THEN /\ Require(e.rc = 0, "a value which fits is rejected", [w |-> e.w, text |-> e.text])
              /\ Require(e.rc # 0 \/ SameValue(e), "value", [w |-> e.w, text |-> e.text, got |-> e.got, expected |-> ValueOf(e.v, e.w)])
         ELSE Require(e.rc = 1, "a value which does not fit is accepted", [w |-> e.w, text |-> e.text, got |-> e.got, rc |-> e.rc])
    [] e.op = "range" ->
         /\ Require(e.rc = 0, "a range is rejected", e.text)
         /\ Require(e.rc # 0 \/ e.width = RangeWidth(e.rs), "width of a range", [text |-> e.text, got |-> e.width, expected |-> RangeWidth(e.rs)])
         /\ Require(e.rc # 0 \/ e.got = e.rs, "bounds of a range", [text |-> e.text, got |-> e.got])
Init == i = 1
Next == i <= Len(Trace) /\ Rules(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
