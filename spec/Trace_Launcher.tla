-------------------------- MODULE Trace_Launcher --------------------------
(***************************************************************************)
(* Checks recorded runs of the launcher.                                   *)
(***************************************************************************)
EXTENDS Launcher, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done
Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> "C30", clause |-> cl]))
Judge(cl, ok) == IF ok THEN TRUE ELSE Bad(cl)
It == Items[tid]
Match(want, got) == want[1] = got[1] /\ want[2] = got[2] /\ want[3] = got[3] /\ (want[4] = "*" \/ want[4] = got[4])
\* the message that is logged for an error
Says(x, m) == CASE x[1] = "run" -> m.k = "run" /\ m.s = x[2]
                [] x[1] = "inline" -> m.k = "other" /\ m.s = x[2]
                [] x[1] = "unreadable" -> m.k = "other"
                [] OTHER -> FALSE
One ==
  LET r == LRun(It.e, It.prog, It.kind)
      clean == r.errs = {}
      sent == RangeS(It.sent)
      ended == {x \in r.errs : Code(x) = It.code}
  IN /\ Judge("exit-code", It.code \in Codes(r))
     /\ Judge("told", IF clean THEN It.errors = <<>>
                      ELSE \E x \in ended : IF Told(x) THEN Len(It.errors) = 1 /\ Says(x, It.errors[1])
                                            ELSE It.errors = <<>> /\ (IsNum(x[2]) \/ It.err = x[2]))
     \* the trace that is shown is that of the program's own code
     /\ Judge("own-trace", \A i \in DOMAIN It.errors : LET m == It.errors[i] IN
                m.k = "other" => \/ It.kind # "ok"
                                 \/ m.own /\ m.at
                                 \/ \E j \in DOMAIN It.prog : It.prog[j].a = "callback" /\ It.prog[j].v = m.s /\ m.at
                                 \/ \E n \in RangeS(It.e.refuse) : m.s = "refused " \o n)
     /\ IF It.kind # "ok" THEN Judge("not-run", It.start.times = 0)
        ELSE /\ Judge("run-once", It.start.times = 1)
             /\ Judge("as-main", It.start.main)
             /\ Judge("directory", It.start.cwd)
             /\ Judge("arguments", It.start.argv)
             /\ Judge("parallel", It.start.parallel)
             /\ Judge("environment", It.seen = r.seen)
     /\ Judge("logs", It.logs = r.logs)
     /\ Judge("sent", IF clean THEN Len(It.sent) = Cardinality(r.sent) /\ (\A x \in r.sent : \E y \in sent : Match(x, y)) /\ (\A y \in sent : \E x \in r.sent : Match(x, y))
                      ELSE \A y \in sent : \E x \in r.sent : Match(x, y))
     /\ Judge("stack", It.stacks = <<It.e.project \o "-" \o It.e.stack>> \/ (~clean /\ It.stacks = <<>>))
     /\ Judge("outputs", IF clean THEN Len(It.out) = Cardinality(r.out) /\ RangeS(It.out) = r.out ELSE RangeS(It.out) \subseteq r.out)
Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ One /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
===========================================================================
