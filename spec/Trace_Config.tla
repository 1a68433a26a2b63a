---------------------------- MODULE Trace_Config ----------------------------
(***************************************************************************)
(* Checks recorded histories of changes and lookups.                       *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cfg

Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C19", clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[2] THEN TRUE ELSE Bad(cl[1])

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Same(a.l[i], b.l[i])
       [] a.t = "dict" -> /\ Range0(a.k) = Range0(b.k) /\ Len(a.k) = Len(b.k)
                          /\ \A i \in DOMAIN a.k : \A j \in DOMAIN b.k : a.k[i] = b.k[j] => Same(a.l[i], b.l[j])
       [] OTHER -> a = b

It == Items[tid]
Ev == It.ev[l]
Init == tid \in 1 .. Len(Items) /\ l = 1 /\ cfg = [set |-> <<>>, secret |-> {}, env |-> <<>>, bag |-> <<>>, project |-> Items[tid].project]
Look1 ==
  LET q == Ev.q
      want == Look(cfg, q)
      got == Ev.got
  IN /\ Judge({<<"text-as-written", \A i \in DOMAIN q.asts : q.asts[i].pre \o Render(q.asts[i].j, q.asts[i].sp) \o q.asts[i].post = q.asts[i].s>>})
     /\ Judge({<<"outcome", got.t = want.t>>})
     /\ IF got.t # want.t THEN TRUE
        ELSE IF got.t # "ok" THEN Judge({<<"names-the-key", got.key = want.key /\ got.named>>, <<"ends-the-run-quietly", got.runerror>>})
        ELSE /\ Judge({<<"value", Same(got.v, IF want.v.t = "absent" THEN [t |-> "null"] ELSE want.v)>>})
             /\ Judge({<<"secret", got.secret = (q.secret /\ (want.v.t # "absent"))>>})
Next ==
  /\ l <= Len(It.ev)
  /\ CASE Ev.ev = "look" -> Look1 /\ UNCHANGED cfg
       [] Ev.ev = "secretq" -> Judge({<<"secret-keys", Ev.got = (Ev.k \in cfg.secret)>>}) /\ UNCHANGED cfg
       [] Ev.ev = "fullkey" -> Judge({<<"full-key", Ev.got = Full(BagName(cfg, Ev.name), Ev.key)>>}) /\ UNCHANGED cfg
       [] OTHER -> cfg' = Change(cfg, Ev)
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, cfg>>
=============================================================================
