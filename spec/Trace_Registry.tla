--------------------------- MODULE Trace_Registry ---------------------------
(***************************************************************************)
(* Checks recorded histories of registrations and references.              *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, regs

Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C22", clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[2] THEN TRUE ELSE Bad(cl[1])

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Same(a.l[i], b.l[i])
       [] a.t = "dict" -> /\ ToSet(a.k) = ToSet(b.k) /\ Len(a.k) = Len(b.k)
                          /\ \A i \in DOMAIN a.k : Same(a.l[i], b.l[Lookup(b, a.k[i])])
       [] a.t = "sec" -> Same(a.v, b.v)
       [] OTHER -> a = b

It == Items[tid]
Ev == It.ev[l]
Init == tid \in 1 .. Len(Items) /\ l = 1 /\ regs = <<>>
Next ==
  /\ l <= Len(It.ev)
  /\ IF Ev.ev = "register"
     THEN LET ok == Accepts(regs, Ev.x)
          IN /\ Judge({<<"same-version-refused", Ev.ok = ok>>})
             /\ regs' = IF Ev.ok THEN Append(regs, Ev.x) ELSE regs
     ELSE /\ Judge({<<"decodes", ~Ev.fail>>})
          /\ IF Ev.fail THEN TRUE ELSE Judge({<<"resolved", Same(Decode(regs, It.refs, Ev.w, Ev.keep), Ev.v)>>})
          /\ UNCHANGED regs
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, regs>>
=============================================================================
