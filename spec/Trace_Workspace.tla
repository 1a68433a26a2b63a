------------------------- MODULE Trace_Workspace -------------------------
(***************************************************************************)
(* Checks recorded histories of workspace operations. Each event holds the *)
(* operation, what it gave and the store after it.                         *)
(***************************************************************************)
EXTENDS Workspace, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, w
Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C26", clause |-> cl]))
Judge(cl, ok) == IF ok THEN TRUE ELSE Bad(cl)
It == Items[tid]
Ev == It.ev[l]
NormStack(s) == [s EXCEPT !.cfg = RangeS(@), !.last = RangeS(@), !.outs = RangeS(@)]
NormDir(d) == [d EXCEPT !.st = [i \in DOMAIN @ |-> NormStack(@[i])]]
Norm(x) == [x EXCEPT !.dirs = [i \in DOMAIN @ |-> NormDir(@[i])]]
\* a result: the rows, each once
SameResult(r, got) == r.t = got.t /\ (IF r.t = "error" THEN r.c = got.c ELSE Len(got.l) = Cardinality(r.l) /\ RangeS(got.l) = r.l)
Init == tid \in 1 .. Len(Items) /\ l = 1 /\ w = Norm(Items[tid].w)
Next ==
  /\ l <= Len(It.ev)
  /\ IF Ev.ev = "version"
     THEN /\ Judge("version", SameResult(Version(Ev.v, Ev.out), Ev.r)) /\ UNCHANGED w
     ELSE LET e == Step(w, Ev.o)
              now == Norm(Ev.w)
          IN /\ (IF Ev.o.via = "ext" THEN TRUE ELSE Judge("result:" \o Ev.o.op, SameResult(e.r, Ev.r)))
             /\ Judge("store:" \o Ev.o.op, e.w = now)
             /\ w' = now
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, w>>
=============================================================================
