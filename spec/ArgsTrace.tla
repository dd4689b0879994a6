------------------------------ MODULE ArgsTrace ------------------------------
(* Recorded runs, checked against Args.tla. Events: "world" the files and the output of one plain run per bus;           *)
(* "run" a command line with what it showed; "pair" the same description with and without -add-timestamp.               *)
EXTENDS Args, TLC, Json
VARIABLES i, w
vars == <<i, w>>
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[i]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Ev.ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
SeqSet(x) == {x[k] : k \in DOMAIN x}
Init == i = 1 /\ w = 0
World == Trace[w]
Refs(bus, ts) == {World.refs[k].dig : k \in {j \in DOMAIN World.refs : World.refs[j].bus = bus /\ World.refs[j].ts = ts}}
IsWorld == /\ i <= Len(Trace) /\ Ev.kind = "world"
           /\ \A k \in DOMAIN Ev.refs : LET r == Ev.refs[k] IN
                Require(r.name = r.bus, "-main does not select the main bus", r) /\ Require(r.tscount = (IF r.ts THEN 1 ELSE 0), "-add-timestamp does not decide about the timestamp", r)
           /\ Require(SeqSet(Ev.dump) = SeqSet(Ev.consts), "-c does not write the constants of the packages", [expected |-> Ev.consts, got |-> Ev.dump])
           /\ w' = i /\ i' = i + 1
Kind(f) == IF f \in SeqSet(World.good) THEN "good" ELSE IF f \in SeqSet(World.bad) THEN "bad" ELSE "missing"
IsRun ==
  /\ i <= Len(Trace) /\ Ev.kind = "run"
  /\ LET s == Parse(Ev.args, SeqSet(Ev.dashed))
         e == Expect(s, Kind(s.file), SeqSet(World.buses), SeqSet(World.unwritable))
         what == [args |-> Ev.args, read |-> s, rc |-> Ev.rc, out |-> Ev.out, created |-> Ev.created, stderr |-> Ev.stderr]
     IN  IF s.open THEN Require(Ev.rc \in {0, 1}, "the compiler crashes", what)
         ELSE /\ Require(Ev.rc = e.rc, "exit status", what)
              /\ Require(Ev.out = e.out, "standard output", what)
              /\ e.out = "json" => /\ Require(Ev.dig \in Refs(e.bus, s.ts), "the output differs from the one of a plain run", what)
                                   /\ Require(s.ts => Ev.tsok, "the timestamp is not the time of the run", what)
              /\ Require(SeqSet(Ev.created) = e.created, "files written", what)
              /\ e.rc = 0 /\ e.created # {} => Require(SeqSet(Ev.dump) = SeqSet(World.consts), "contents of the constants file", what)
              /\ Require(e.rc = 1 => Ev.message, "a fault is not reported on the standard error", what)
              /\ Require(e.rc = 0 /\ ~s.debug => ~Ev.message, "messages although nothing is wrong", what)
              /\ Require(e.out = "json" /\ s.debug => Ev.message, "no debug messages with -debug", what)
  /\ i' = i + 1 /\ UNCHANGED w
(* -add-timestamp adds exactly the timestamp: nothing else of the description changes, only the sizes, the addresses after it and the ID *)
Dependent(p) == \/ p[1] = "Sizes"
                \/ \E k \in DOMAIN p : p[k] = "AddrSpace"
                \/ p = <<"Statics", "ID", "InitValue">>
                \/ Len(p) >= 2 /\ p[1] = "Statics" /\ p[2] = "TIMESTAMP"
IsPair ==
  /\ i <= Len(Trace) /\ Ev.kind = "pair"
  /\ LET p == {d \in SeqSet(Ev.diff) : ~Dependent(d)} IN
       /\ Require(Ev.rc1 = Ev.rc2, "-add-timestamp changes the verdict", [without |-> Ev.rc1, with |-> Ev.rc2])
       /\ Ev.rc1 = 0 => Require(p = {}, "-add-timestamp changes more than the timestamp", p) /\ Require(Ev.rc2 = 0 => Ev.stamps = 1, "timestamps", Ev.stamps)
  /\ i' = i + 1 /\ UNCHANGED w
Next == IsWorld \/ IsRun \/ IsPair
Spec == Init /\ [][Next]_vars
NotStuck == ENABLED Next \/ i > Len(Trace)
=============================================================================
