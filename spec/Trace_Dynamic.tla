---------------------------- MODULE Trace_Dynamic ---------------------------
(***************************************************************************)
(* Checks recorded requests to the real plugin, and what registering a     *)
(* dynamic resource sent.                                                  *)
(***************************************************************************)
EXTENDS Dynamic, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C20", clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[2] THEN TRUE ELSE Bad(cl[1])

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Same(a.l[i], b.l[i])
       [] a.t = "dict" -> /\ ToSet(a.k) = ToSet(b.k) /\ Len(a.k) = Len(b.k)
                          /\ \A i \in DOMAIN a.k : Same(a.l[i], b.l[Lookup(b, a.k[i])])
       [] OTHER -> a = b
SameArgs(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A f \in DOMAIN a : IF f = "id" THEN a.id = b.id ELSE Same(a[f], b[f])

It == Items[tid]
Ev == It.ev[l]
Init == tid \in 1 .. Len(Items) /\ l = 1
Request ==
  LET w == Which(Ev.op, Ev.r)
      pv == It.pvs[w]
      want == Answer(Ev.op, Ev.r, pv)
      logs == pv[Ev.op].k # "default"
  IN /\ Judge({<<"runs-the-operation-once", Len(Ev.ran) = IF logs THEN 1 ELSE 0>>})
     /\ IF ~logs \/ Len(Ev.ran) # 1 THEN TRUE
        ELSE /\ Judge({<<"the-attached-provider", Ev.ran[1].p = w /\ Ev.ran[1].op = Ev.op>>})
             /\ Judge({<<"shown", SameArgs(Args(Ev.op, Ev.r), Ev.ran[1].args)>>})
     /\ Judge({<<"outcome", Ev.ans.fail = want.fail>>})
     /\ IF Ev.ans.fail \/ want.fail THEN TRUE
        ELSE /\ Judge({<<"answer", \A f \in DOMAIN want \ {"inputs", "props"} : Ev.ans[f] = want[f]>>})
             /\ IF Has(want, "props") THEN Judge({<<"outputs", Same(Ev.ans.props, want.props)>>}) ELSE TRUE
             /\ IF Has(want, "inputs") THEN Judge({<<"inputs", Same(Ev.ans.inputs, want.inputs)>>}) ELSE TRUE
     /\ IF Ev.ans.fail /\ want.fail /\ pv[Ev.op].k = "raise" THEN Judge({<<"says-why", Ev.ans.why>>}) ELSE TRUE
Registered ==
  \* the resource is sent with its properties and provider, which is all that is added; the program's bag is left alone
  /\ Judge({<<"registers", ~Ev.fail>>})
  /\ IF Ev.fail THEN TRUE
     ELSE /\ Judge({<<"type", Ev.type = "pulumi-python:dynamic" \o (IF Ev.module = "" THEN "" ELSE "/" \o Ev.module) \o ":" \o Ev.name>>})
          /\ Judge({<<"provider-sent", Same(Ev.sent, PutKey(Ev.props, PKey, Prov(Ev.p)))>>})
          /\ Judge({<<"arguments-unchanged", Same(Ev.after, Ev.props)>>})
\* the same provider is encoded the same way, in every process and in any order of dictionaries
Encoded == Judge({<<"encodes", ~Ev.fail>>, <<"deterministic", Ev.fail \/ Ev.distinct = 1>>, <<"faithful", Ev.fail \/ Ev.faithful>>})
Next ==
  /\ l <= Len(It.ev)
  /\ CASE Ev.ev = "request" -> Request
       [] Ev.ev = "register" -> Registered
       [] Ev.ev = "encode" -> Encoded
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
