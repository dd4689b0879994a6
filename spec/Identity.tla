------------------------------ MODULE Identity ------------------------------
(* The identity of a bus. A bus is listed as a sequence of entries [path: positions in the lists, kind: list, grp: within a *)
(* group, f: fields, as text]; the identifier is a digest of the identified fields, so that buses which differ in one of     *)
(* them differ in their identifiers (up to the collisions of the digest), and equal buses have equal ones.                  *)
EXTENDS Naturals, Sequences, FiniteSets
Func_ == {"Name", "Doc", "IsArray", "Count"}
Identified(kind) == Func_ \cup
  CASE kind \in {"Bus", "Subblocks"} -> {"Masters", "Width", "ConstValues", "Sizes", "AddrSpace"}
    [] kind = "Blackboxes" -> {"Size"}
    [] kind \in {"Configs", "Masks"} -> {"Atomic", "InitValue", "Width", "Access"}
    [] kind = "Irqs" -> {"AddEnable", "Clear", "EnableInitValue", "EnableResetValue", "InTrigger", "OutTrigger", "Access"}
    [] kind \in {"Params", "Returns"} -> {"Width", "Access"}
    [] kind = "Procs" -> {"CallAddr", "ExitAddr"}
    [] kind = "Statics" -> {"InitValue", "Width", "Access"}
    [] kind = "Statuses" -> {"Atomic", "Width", "Access"}
    [] kind = "Streams" -> {"StbAddr"}
    [] OTHER -> {}
Own(e) == [k \in Identified(e.kind) \cap DOMAIN e.f |-> e.f[k]]
Content(l) == LET s == SelectSeq(l, LAMBDA e : ~e.grp) IN [i \in DOMAIN s |-> <<s[i].path, s[i].kind, Own(s[i])>>]
Distinct(a, b) == Content(a) # Content(b)
Same(a, b) == a = b
(* fields of one entry in which two listings of the same functionalities differ *)
Changed(a, b) == IF Len(a) # Len(b) THEN {"functionalities"}
                 ELSE UNION {IF a[i].path # b[i].path \/ a[i].kind # b[i].kind THEN {"functionalities"}
                             ELSE {a[i].kind \o "." \o k : k \in {m \in DOMAIN Own(a[i]) \cap DOMAIN Own(b[i]) : a[i].f[m] # b[i].f[m]}} : i \in DOMAIN a}
(* a digest of 32 bits may collide, one of fewer bits does so often (or always, as 16 bits when functionalities swap): a difference is lost when none of several independent *)
(* pairs of buses with that difference shows it                                                                        *)
Lost(ps) == LET d == {i \in DOMAIN ps : Distinct(ps[i].a.l, ps[i].b.l) /\ ps[i].bw >= 32}
            IN  Cardinality(d) >= 3 /\ \A i \in d : ps[i].a.id = ps[i].b.id
Mixed(ps) == {i \in DOMAIN ps : Same(ps[i].a.l, ps[i].b.l) /\ ps[i].a.id # ps[i].b.id}
(* the identifier and the timestamp as registers *)
Min_(a, b) == IF a < b THEN a ELSE b
IdWidth(bw) == Min_(32, bw)
TsWidth(bw) == Min_(36, bw)
Register(s, w, addr) == /\ s.Width = w /\ s.bits = w
                        /\ s.addr = addr /\ s.last = addr /\ s.from = 0 /\ s.to = w - 1 /\ s.regs = 1 /\ s.typ = "SingleOneReg"
=============================================================================
