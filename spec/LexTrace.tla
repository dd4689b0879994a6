------------------------------ MODULE LexTrace ------------------------------
(* Texts with what the compiler did with them, checked against Lexer.tla and Grammar.tla. An event is a group of      *)
(* texts: [x: characters, rc, out: digest of the output, loc: the location the message names: l, c, line: the line     *)
(* shown, from, to: the columns underlined]. The first text is the reference of the others. PROP = "C13": what the     *)
(* rules reject is rejected; texts with the meaning of the first one have its exit status and output. PROP = "C19":   *)
(* the message of a rejected text shows the offending token.                                                          *)
EXTENDS Grammar, Json
CONSTANT PROP
VARIABLES g, n, st, base
vars == <<g, n, st, base>>
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[g]
Cur == Ev.texts[n]
Report(rule, what) == PrintT("VF " \o ToJson([ev |-> Ev.ev, n |-> n, rule |-> rule, what |-> what]))
Require(ok, rule, what) == IF ok THEN TRUE ELSE Report(rule, what)
None == <<"?">>
Init == g = 1 /\ n = 1 /\ st = Start /\ base = None
LineEnd(x, i) == Find(x, i, {"\n"}) - 1
Shown(x, t) == LET a == LastNl(x, 1, t.s - 1) + 1 IN Text(x, a, LineEnd(x, a))
(* the token is underlined up to the end of the line, at least one column *)
To(x, t) == LET e == LineEnd(x, LastNl(x, 1, t.s - 1) + 1)
                last == IF t.e < e THEN t.e ELSE e
            IN  t.c + (IF last > t.s THEN last - t.s ELSE 0)
Located(x, t) == Cur.loc = [l |-> t.l, c |-> t.c, line |-> Shown(x, t), from |-> t.c, to |-> To(x, t)]
Judge(err, m) ==
  /\ IF err.k # ""
     THEN IF PROP = "C13" THEN Require(Cur.rc = 1, "a malformed description is accepted", [at |-> [l |-> err.l, c |-> err.c], why |-> err.x, rc |-> Cur.rc])
          ELSE IF Cur.rc # 1 THEN TRUE ELSE Require(Located(Cur.x, err), "the message does not show the offending token",
               [expected |-> [l |-> err.l, c |-> err.c, line |-> Shown(Cur.x, err), from |-> err.c, to |-> To(Cur.x, err)], got |-> Cur.loc])
     ELSE IF PROP = "C13" /\ n > 1 /\ base # None /\ m = base
     THEN /\ Require(Cur.rc = Ev.texts[1].rc, "descriptions with the same meaning, one rejected", [rc |-> <<Ev.texts[1].rc, Cur.rc>>, stderr |-> Cur.stderr])
          /\ Cur.rc = Ev.texts[1].rc => Require(Cur.out = Ev.texts[1].out, "descriptions with the same meaning, different buses", [n |-> n])
     ELSE TRUE
  /\ PrintT("VF " \o ToJson([ev |-> Ev.ev, n |-> n, rule |-> "", what |-> IF err.k # "" THEN "malformed" ELSE IF m = base THEN "same" ELSE "other"]))
LexOne == /\ g <= Len(Trace) /\ ~st.done /\ st' = LexStep(Cur.x, st) /\ UNCHANGED <<g, n, base>>
ParseOne ==
  /\ g <= Len(Trace) /\ st.done
  /\ LET r == IF st.err.k # "" THEN [err |-> st.err, N |-> <<>>] ELSE ParseTokens(Cur.x, st.T)
         m == IF r.err.k # "" THEN None ELSE Meaning(r.N)
     IN  /\ Judge(r.err, m)
         /\ base' = IF n = Len(Ev.texts) THEN None ELSE IF n = 1 THEN m ELSE base
  /\ n' = IF n = Len(Ev.texts) THEN 1 ELSE n + 1
  /\ g' = IF n = Len(Ev.texts) THEN g + 1 ELSE g
  /\ st' = Start
Next == LexOne \/ ParseOne
Spec == Init /\ [][Next]_vars
Finished == g > Len(Trace)
NotStuck == ENABLED Next \/ Finished
=============================================================================
