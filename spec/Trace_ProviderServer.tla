------------------------ MODULE Trace_ProviderServer ------------------------
(***************************************************************************)
(* Checks recorded histories of requests to the servicer of component      *)
(* providers against the actions of ProviderServer.                        *)
(***************************************************************************)
EXTENDS ProviderServer, Json, IOUtils, TLC, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev[l]
Bad(c) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C15", clause |-> c]))
Judge(clauses) == \A c \in clauses : IF c[2] THEN TRUE ELSE Bad(c[1])

TraceInit ==
  /\ tid \in 1 .. Len(Traces) /\ l = 1
  /\ Init0({[q \in 1 .. Len(Traces[tid].plan) |->
       LET p == Traces[tid].plan[q] IN [n |-> p.n, refused |-> ToSet(p.refused), broken |-> ToSet(p.broken), raises |-> p.raises]]})
TBegin ==
  /\ Ev.ev = "begin" /\ Judge(BeginClauses(Ev.q))
  /\ st' = [st EXCEPT ![Ev.q] = "in"] /\ whose' = Ev.q
  /\ UNCHANGED <<made, sent, over, gone, exc>>
TSend ==
  /\ Ev.ev = "send" /\ Judge(SendClauses(<<Ev.q, Ev.r>>, Ev.m))
  /\ made' = made \cup {<<Ev.q, Ev.r>>} /\ sent' = sent \cup {<<Ev.q, Ev.r, Ev.m>>}
  /\ UNCHANGED <<st, whose, over, gone, exc>>
TAnswer ==
  /\ Ev.ev \in {"ack", "nack"}
  /\ over' = over \cup {<<Ev.q, Ev.r>>}
  /\ exc' = IF Ev.ev = "nack" /\ st[Ev.q] \notin {"ok", "err"} /\ exc = 0 THEN Ev.q ELSE exc
  /\ UNCHANGED <<st, whose, made, sent, gone>>
TFinish ==
  /\ Ev.ev = "answer"
  /\ LET q == Ev.q IN
     /\ Judge({<<"answer-in-service", st[q] = "in">>,
               <<"own-failure", Ev.err => Troubled(q) \/ Traces[tid].plan[q].mayfail>>,
               <<"failure-reported", ~Ev.err => ~Troubled(q) /\ exc # q>>,
               <<"settled", ~Ev.err => Of(q, made) = {<<q, r>> : r \in 1 .. plan[q].n} /\ Of(q, made) \subseteq over>>})
     /\ st' = [st EXCEPT ![q] = IF Ev.err THEN "err" ELSE "ok"]
     /\ gone' = gone \cup (Of(q, made) \ over)
     /\ exc' = IF exc = q THEN 0 ELSE exc
  /\ UNCHANGED <<whose, made, sent, over>>
End ==
  /\ l = Len(Traces[tid].ev) + 1
  /\ Judge({<<"all-served", \A q \in Q : st[q] \in {"ok", "err"}>>})
  /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
TraceNext ==
  \/ End
  \/ l <= Len(Traces[tid].ev) /\ (TBegin \/ TSend \/ TAnswer \/ TFinish) /\ l' = l + 1 /\ UNCHANGED <<tid, plan>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
