------------------------------ MODULE ScopeTrace ------------------------------
(* Recorded compilations of programs, checked against Scope.tla, instance by instance. An event holds the  *)
(* program, the exit status and the output: recs, a function from paths ("Main/x/c") to [w: width or masters, arr, cnt, consts]. *)
EXTENDS Scope, TLC, Json
VARIABLES i, todo, seen
vars == <<i, todo, seen>>
Trace == ndJsonDeserialize("trace.ndjson")
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Trace[i].ev, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
Init == i = 1 /\ todo = <<>> /\ seen = <<"?">>
Ev == Trace[i]
P == Ev.p
Next0 == i' = i + 1 /\ todo' = <<>> /\ seen' = <<"?">>
Open == /\ i <= Len(Trace) /\ seen = <<"?">>
        /\ IF Bad(P, Ev.main) THEN Require(Ev.rc = 1, "an invalid use of names or arguments is accepted", [rc |-> Ev.rc]) /\ Next0
           ELSE IF Ev.rc # 0 THEN Report("a valid use of names and arguments is rejected", [rc |-> Ev.rc, stderr |-> Ev.stderr]) /\ Next0
           ELSE todo' = <<[i |-> Ev.main, env |-> Env0(P), path |-> "Main"]>> /\ seen' = <<>> /\ UNCHANGED i
RECURSIVE Seq2(_)
Seq2(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : \A z \in s : y.i <= z.i IN <<x>> \o Seq2(s \ {x})
Visit == /\ i <= Len(Trace) /\ seen # <<"?">> /\ todo # <<>>
         /\ LET x == Head(todo)
                it == Items(P, x.i, x.env)
                b == BaseOf(P, x.i)
                here == x.path \in DOMAIN Ev.recs
                rec == Ev.recs[x.path]
                ofKind(w) == {k \in DOMAIN it : it[k].what = w}
                consts == {<<it[k].n, it[k].v[1]>> : k \in ofKind("const")}
                kids == Seq2(Inner(P, x.i, x.env))
            IN  /\ IF ~here THEN Report("an instance is missing", [path |-> x.path])
                   ELSE /\ \A k \in ofKind("prop") : Require(rec.w = it[k].v[1], "value of a property", [path |-> x.path, property |-> it[k].n, expected |-> it[k].v[1], got |-> rec.w])
                        /\ \A k \in ofKind("count") : Require(rec.arr = 1 /\ rec.cnt = it[k].v[1], "size of an array", [path |-> x.path, expected |-> it[k].v[1], got |-> rec.cnt])
                        /\ Require(ofKind("count") # {} \/ rec.arr = 0, "size of an array", [path |-> x.path, expected |-> "no array", got |-> rec.cnt])
                        /\ b \in {"block", "bus", "group"} => Require({<<rec.consts[k].n, rec.consts[k].v>> : k \in DOMAIN rec.consts} = consts, "value of a constant",
                                                                     [path |-> x.path, expected |-> consts, got |-> rec.consts])
                /\ todo' = [k \in DOMAIN kids |-> [i |-> kids[k].i, env |-> kids[k].env, path |-> x.path \o "/" \o P[kids[k].i].name]] \o Tail(todo)
                /\ seen' = Append(seen, x.path) /\ UNCHANGED i
Close == /\ i <= Len(Trace) /\ seen # <<"?">> /\ todo = <<>> /\ Next0
Next == Open \/ Visit \/ Close
Spec == Init /\ [][Next]_vars
Consumed == TRUE
Finished == i > Len(Trace)
NotStuck == ENABLED Next \/ Finished
=============================================================================
