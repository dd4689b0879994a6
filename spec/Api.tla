-------------------------------- MODULE Api --------------------------------
(* The Go library. A program calls Compile any number of times and keeps what it gets; everything it has got  *)
(* can be asked questions at any time. The answers follow from the description alone:                          *)
(*  - a result is that of its own program, whatever has been compiled before or since;                         *)
(*  - derived answers (buffer sizes, directions, kinds ...) follow from the plain data of the result.          *)
(* Plain data of a functionality x: type, name, and what its kind has: acc: <<first, last>> address;            *)
(* ps, rs: the addresses <<first, last>> of its params and returns in order; stb: strobe address; delay         *)
(* [given, s, ns]; irqs: <<clear, enable>>; nums: how many of each kind a group has; consts: how many constants.*)
EXTENDS BitStr, FiniteSets

(* ---------------------------- derived answers ---------------------------- *)
Lo(as) == CHOOSE a \in {as[i][1] : i \in DOMAIN as} : \A i \in DOMAIN as : a <= as[i][1]
Hi(as) == CHOOSE a \in {as[i][2] : i \in DOMAIN as} : \A i \in DOMAIN as : a >= as[i][2]
None == -1                        \* there is no answer: asking for it panics
BufSize(as) == IF as = <<>> THEN 0 ELSE Hi(as) - Lo(as) + 1
BufStart(as) == IF as = <<>> THEN None ELSE Lo(as)

ProcAnswers(x) ==
  [pbuf |-> BufSize(x.ps), pstart |-> BufStart(x.ps), rbuf |-> BufSize(x.rs), rstart |-> BufStart(x.rs),
   isempty |-> x.ps = <<>> /\ x.rs = <<>>, isparam |-> x.ps # <<>> /\ x.rs = <<>>, isreturn |-> x.ps = <<>> /\ x.rs # <<>>]
Downstream(x) == x.rs = <<>>
StreamAnswers(x) ==
  [down |-> Downstream(x), up |-> ~Downstream(x),
   start |-> IF x.ps # <<>> THEN Lo(x.ps) ELSE IF x.rs # <<>> THEN Lo(x.rs) ELSE x.stb]
(* nothing in a read-only group is ever written: the irqs are cleared by reading and are always enabled *)
Written == {"config", "mask", "param"}
ReadOnly(x) == (\A k \in Written : x.nums[k] = 0) /\ (\A i \in DOMAIN x.irqs : x.irqs[i] = <<"On Read", FALSE>>)
Zero(d) == d.s = BZero /\ d.ns = BZero
EndWidth(r) == BitsFor(r, 0)

Expected(x) ==
  CASE x.type = "proc" -> ProcAnswers(x)
    [] x.type = "stream" -> StreamAnswers(x)
    [] x.type = "group" -> [ro |-> ReadOnly(x), empty |-> x.consts = 0]
    [] x.type = "block" -> [start |-> x.acc[1], width |-> EndWidth(x.last), empty |-> x.consts = 0]
    [] x.type = "blackbox" -> [none |-> 0]
    [] x.type = "package" -> [empty |-> x.consts = 0]
    [] x.type = "irq" -> [access |-> x.acc, enable |-> x.enacc]
    [] OTHER -> [access |-> x.acc]

(* -------------------------- histories of calls --------------------------- *)
(* a step is [op |-> "compile", p] or [op |-> "ask", h]; ok[p]: p is a correct description *)
RECURSIVE Handles(_, _)
Handles(steps, n) == IF n = 0 THEN <<>> ELSE IF steps[n].op = "compile" THEN Append(Handles(steps, n - 1), steps[n].p) ELSE Handles(steps, n - 1)
Fine(steps, i) == steps[i].op = "compile" \/ steps[i].h <= Len(Handles(steps, i - 1))
(* what step i shows: a compilation whether there is a result, a question the result itself *)
Shown(steps, i, ok, result) ==
  IF steps[i].op = "compile" THEN (IF ok[steps[i].p] THEN "result" ELSE "error")
  ELSE LET p == Handles(steps, i - 1)[steps[i].h] IN IF ok[p] THEN result[p] ELSE "nothing"
=============================================================================
