------------------------------ MODULE ApiTrace ------------------------------
(* Recorded uses of the library, one event per step:                                                          *)
(* [op: "history", steps, ok, want, got, text]  a history of calls: want[p] the result of the command line      *)
(*        (or "") for program p, got[i] what step i showed                                                       *)
(* [op: "same", cli, lib]     the result as the command line shows it and as the library has it, as lines        *)
(* [op: "answer", x, ans]     a functionality, and what it answers                                               *)
(* [op: "bits", s, w, n, chars, lit, tobin, ext, uint, pre]  [op: "ranges", rs, by, widths, width, empty, shift] *)
(* [op: "time", s, ns, zero]                                                                                     *)
EXTENDS Api, TLC, Json
VARIABLE i
Trace == ndJsonDeserialize("trace.ndjson")
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[i].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)

History(e) == \A k \in DOMAIN e.steps :
  Require(e.got[k] = Shown(e.steps, k, e.ok, e.want), "the result depends on the calls before it", [step |-> k, got |-> e.got[k], expected |-> Shown(e.steps, k, e.ok, e.want)])
SameLines(e) ==
  IF e.cli = e.lib THEN TRUE
  ELSE LET d == {k \in DOMAIN e.cli \cap DOMAIN e.lib : e.cli[k] # e.lib[k]}
           f == CHOOSE k \in d : \A m \in d : k <= m
       IN  IF d = {} THEN Report("the library and the command line differ", [lengths |-> <<Len(e.cli), Len(e.lib)>>])
           ELSE Report("the library and the command line differ", [cli |-> e.cli[f], lib |-> e.lib[f]])
Answer(e) ==
  /\ Require(e.ans.type = e.x.type, "Type", [path |-> e.path, got |-> e.ans.type, expected |-> e.x.type])
  /\ Require(e.ans.name = e.x.name, "GetName", [path |-> e.path, got |-> e.ans.name, expected |-> e.x.name])
  /\ LET want == Expected(e.x)
     IN \A f \in DOMAIN want \ {"none"} : Require(f \in DOMAIN e.ans /\ e.ans[f] = want[f], f, [path |-> e.path, got |-> IF f \in DOMAIN e.ans THEN e.ans[f] ELSE "-", expected |-> want[f]])

(* bits in the base of the string when they fit its digits, and in binary otherwise: the same bits *)
BitsEvent(e) ==
  LET b == BitsOf(e.s)
      wide == e.w >= Len(b)
      value == ~HasMeta(e.s) /\ BLess(BitsValue(e.s), BPow(Two, 64))
  IN  /\ Require(e.n = BitLen(e.s), "BitWidth", [s |-> e.text, got |-> e.n])
      /\ Require(e.chars = Len(e.s.ds), "CharWidth", [s |-> e.text, got |-> e.chars])
      /\ Require(e.lit = e.s.ds, "ValueLiteral", [s |-> e.text, got |-> e.lit])
      /\ Require(e.pre = <<e.s.p = "b", e.s.p = "o", e.s.p = "x">>, "IsBin, IsOctal, IsHex", [s |-> e.text, got |-> e.pre])
      /\ Require(e.tobin.p = "b" /\ e.tobin.ds = b, "ToBin", [s |-> e.text, got |-> e.tobin])
      /\ IF wide THEN Require(e.ext.p \in {"b", "o", "x"} /\ BitLen(e.ext) = e.w /\ BitsOf(e.ext) = ExtendBits(b, e.w), "Extend", [s |-> e.text, w |-> e.w, got |-> e.ext])
         ELSE Require(e.ext.p = "panic", "Extend to less", [s |-> e.text, w |-> e.w, got |-> e.ext])
      /\ IF value THEN Require(~e.nouint /\ e.uint = BitsValue(e.s), "Uint64", [s |-> e.text, got |-> e.uint])
         ELSE Require(e.nouint, "Uint64 of a string without value", [s |-> e.text, got |-> e.uint])
Plus(r, by) == [l |-> BAdd(r.l, by), r |-> BAdd(r.r, by)]
RangesEvent(e) ==
  /\ Require(e.widths = [k \in DOMAIN e.rs |-> EndWidth(e.rs[k].r)], "BitWidth of a range", [rs |-> e.text, got |-> e.widths])
  /\ Require(e.width = RangeWidth(e.rs), "BitWidth of ranges", [rs |-> e.text, got |-> e.width])
  /\ Require(e.empty = (e.rs = <<>>), "IsEmpty", [rs |-> e.text, got |-> e.empty])
  /\ Require(e.shift = [k \in DOMAIN e.rs |-> Plus(e.rs[k], e.by)], "Shift", [rs |-> e.text, got |-> e.shift])

Rules(e) ==
  CASE e.op = "history" -> History(e)
    [] e.op = "same" -> SameLines(e)
    [] e.op = "answer" -> Answer(e)
    [] e.op = "bits" -> BitsEvent(e)
    [] e.op = "ranges" -> RangesEvent(e)
    [] e.op = "time" -> Require(e.zero = Zero(e), "IsZero", [s |-> e.s, ns |-> e.ns])
Init == i = 1
Next == i <= Len(Trace) /\ Rules(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
