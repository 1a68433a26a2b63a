--------------------------- MODULE Trace_Inline ---------------------------
(***************************************************************************)
(* Checks recorded runs of inline programs.                                *)
(***************************************************************************)
EXTENDS Inline, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C26", clause |-> cl]))
Judge(cl, ok) == IF ok THEN TRUE ELSE Bad(cl)
It == Items[tid]
Ev == It.ev[l]
\* late resources are made when the task runs: with the transformations there are by then
Match(want, got) == want[1] = got[1] /\ want[2] = got[2] /\ want[3] = got[3] /\ (want[4] = "*" \/ want[4] = got[4])
OneRun ==
  LET r == Run(Ev.e, Ev.prog)
      clean == r.errs = {}
      sent == RangeS(Ev.sent)
  IN IF Ev.err[1] = "broken" THEN Bad("run-broke-down")
     ELSE /\ Judge("outcome", IF clean THEN Ev.err[1] = "none" ELSE <<Ev.err[1], Ev.err[2]>> \in r.errs)
          /\ Judge("environment", Ev.seen = r.seen)
          /\ Judge("logs", Ev.logs = r.logs)
          /\ Judge("failure-reported", clean \/ Ev.errlog)
          /\ Judge("sent", IF clean THEN Len(Ev.sent) = Cardinality(r.sent) /\ (\A x \in r.sent : \E y \in sent : Match(x, y)) /\ (\A y \in sent : \E x \in r.sent : Match(x, y))
                           ELSE \A y \in sent : \E x \in r.sent : Match(x, y))
          /\ Judge("stack", Ev.stacks = <<Ev.e.project \o "-" \o Ev.e.stack>> \/ (~clean /\ Ev.stacks = <<>>))
          /\ Judge("outputs", IF clean THEN Len(Ev.out) = Cardinality(r.out) /\ RangeS(Ev.out) = r.out ELSE RangeS(Ev.out) \subseteq r.out)
          /\ Judge("after-the-run", ~Ev.after)
\* the operation as a whole
Whole ==
  LET rs == [i \in DOMAIN Ev.runs |-> Run(Ev.runs[i].e, Ev.runs[i].prog).errs]
      bad == {i \in DOMAIN rs : rs[i] # {}}
      f == CHOOSE i \in bad : \A j \in bad : i <= j
  IN /\ Judge("operation", IF bad = {} THEN Ev.c = "" ELSE Ev.c \in {IF x[1] = "run" THEN "CommandError" ELSE "InlineSourceRuntimeError" : x \in rs[f]})
     /\ Judge("runs", Ev.count = IF bad = {} THEN Len(Ev.runs) ELSE f)
     /\ Judge("caller-settings", Ev.before = Ev.now)
Init == tid \in 1 .. Len(Items) /\ l = 1
Next ==
  /\ l <= Len(It.ev)
  /\ IF Ev.ev = "run" THEN OneRun ELSE Whole
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
