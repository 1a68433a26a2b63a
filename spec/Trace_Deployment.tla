-------------------------- MODULE Trace_Deployment --------------------------
(***************************************************************************)
(* Validates recorded executions of the SDK against Deployment.tla.  The   *)
(* input file (environment variable TRACES, one JSON document: a sequence  *)
(* of [id, prog, ev]) is checked trace by trace; the trace number is part  *)
(* of the state.  Every recorded event is checked against the clauses of   *)
(* the Deployment action it stands for; a failing clause is printed (the   *)
(* verdict is total) and the state follows what was recorded, so that the  *)
(* rest of the trace is checked too.                                       *)
(*                                                                         *)
(* Silent steps of Deployment (Start, Await, Skip, Got, ...) are not       *)
(* logged: SendClauses is their composition, closed over the order in      *)
(* which they can happen (MC_Deployment checks that the fine-grained       *)
(* actions only ever reach a Send satisfying them: invariant CoarseSend).  *)
(***************************************************************************)
EXTENDS Deployment, DeploymentCoarse, Json, IOUtils, TLC, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cb   \* cb: "no", "nested" (only callbacks made by callbacks failed so far) or "yes"
tvars == <<vars, tid, l, cb>>

AsSet(s) == ToSet(s)
AsPairs(s) == {<<e[1], e[2]>> : e \in ToSet(s)}
ProgOf(t) == [i \in 1 .. Len(Traces[t].prog) |->
   LET x == Traces[t].prog[i] IN
   [kind |-> x.kind, par |-> x.par, deps |-> AsSet(x.deps), ins |-> AsSet(x.ins), prov |-> x.prov,
    pkg |-> x.pkg, provs |-> AsPairs(x.provs), aw |-> AsSet(x.aw), soft |-> AsSet(x.soft), late |-> x.late]]

TraceInit ==
  /\ tid \in 1 .. Len(Traces)
  /\ l = 1 /\ cb = "no"
  /\ Init0({ProgOf(tid)})

Ev == Traces[tid].ev[l]
Bad(p, c) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> p, clause |-> c]))
\* reports every clause (a set of <<property, name, holds>>) that does not hold; never false
Judge(clauses) == \A c \in clauses : IF c[3] THEN TRUE ELSE Bad(c[1], c[2])

Frame == UNCHANGED <<prog, pc, todo, cur, tid>>

TSend ==
  /\ Ev.ev = "send"
  /\ IF Ev.r > Len(prog)
     THEN /\ Bad("C10", "unknown-resource") /\ UNCHANGED <<edges, sent, st, outcome>>
     ELSE LET r == Ev.r
              D == AsSet(Ev.deps)
          IN /\ Judge(SendClauses(prog, st, r, Ev.par, Ev.prov, AsPairs(Ev.provs), D))
             /\ Judge({<<"C07", "property-deps", PDepsOK(prog, r, AsSet(Ev.pdeps[k].ins), AsSet(Ev.pdeps[k].soft), AsSet(Ev.pdeps[k].got), D)>> :
                         k \in 1 .. Len(Ev.pdeps)})
             /\ st' = [st EXCEPT ![r] = "inflight"]
             /\ sent' = [sent EXCEPT ![r] = D \cap R0(prog)]
             /\ edges' = edges \cup {<<r, d>> : d \in D \cap R(prog)}
             /\ UNCHANGED outcome
  /\ Frame
TAck ==
  \* an answer after the end (the program failed meanwhile) reaches nobody
  /\ Ev.ev = "ack" /\ st' = [st EXCEPT ![Ev.r] = IF outcome = "running" THEN "ok" ELSE "late"]
  /\ UNCHANGED <<edges, sent, outcome>> /\ Frame
TNack ==
  /\ Ev.ev = "nack" /\ st' = [st EXCEPT ![Ev.r] = IF outcome = "running" THEN "fail" ELSE "late"]
  /\ UNCHANGED <<edges, sent, outcome>> /\ Frame

\* the constructor refused the resource: it never exists for the engine
TCtorFail ==
  /\ Ev.ev = "ctorfail" /\ st' = [st EXCEPT ![Ev.r] = "ctor"]
  /\ UNCHANGED <<edges, sent, outcome>> /\ Frame

Missing(r) == Needed(prog, r) \ sent[r]
TEnd ==
  /\ Ev.ev = "end"
  /\ LET all == \A r \in R0(prog) : st[r] \in {"ok", "ctor"}
         \* the request that looks up an existing resource does not say what it waited for
         E == edges \cup StructEdges(prog)
              \cup UNION {{<<r, d>> : d \in Wanted(prog, r)} : r \in {x \in R(prog) : prog[x].kind = "get"}}
         done == {r \in R(prog) : st[r] \in {"ok", "inflight"} /\ prog[r].kind # "get"}
     IN Judge({<<"C08", "hang", Ev.out = "hang" => InputCycle(prog)>>,
               <<"C08", "waits-acyclic", Acyclic(edges \cup StructEdges(prog))>>,
               <<"C09", "success-means-all-registered", Ev.out = "ok" => all>>,
               <<"C09", "success-means-nothing-in-flight", Ev.out = "ok" => Ev.inflight = 0>>,
               <<"C09", "failure-surfaces", ((AnyFailed \/ cb = "yes") /\ Ev.out # "hang") => Ev.out = "error">>,
               <<"C09", "nested-failure-surfaces", (cb = "nested" /\ Ev.out # "hang") => Ev.out = "error">>,
               <<"C09", "no-spurious-error", Ev.out = "error" => (AnyFailed \/ cb # "no" \/ Traces[tid].raises)>>,
               <<"C09", "error-names-a-failure", Ev.out = "error" => Ev.blame>>,
               <<"C07", "deps-complete", Ev.out = "ok" =>
                   \A r \in done : \A d \in Missing(r) : Reaches(E, d, r)>>})
  /\ outcome' = Ev.out
  /\ UNCHANGED <<edges, sent, st>> /\ Frame

\* after the end the driver lets every call finish and reads every output of the resource
TSettle ==
  /\ Ev.ev = "settle"
  \* a program that failed abandons what was still waiting; whatever was answered (or refused) before settles
  /\ Judge({<<"C05", "settles", Ev.hang => (outcome = "error" /\ st[Ev.r] \notin {"ok", "fail"})>>,
            <<"C09", "failed-outputs-fail", Ev.hang \/ (st[Ev.r] # "ok" => (Ev.fail \/ st[Ev.r] = "late"))>>,
            <<"C05", "registered-outputs-resolve", Ev.hang \/ (st[Ev.r] = "ok" => ~Ev.fail)>>})
  /\ UNCHANGED <<edges, sent, st, outcome>> /\ Frame

\* a callback on an output raised
TCbFail == Ev.ev = "cbfail" /\ UNCHANGED <<edges, sent, st, outcome>> /\ Frame

TOther == Ev.ev \notin {"send", "ack", "nack", "ctorfail", "end", "settle", "cbfail"} /\ UNCHANGED <<edges, sent, st, outcome>> /\ Frame

TraceNext ==
  /\ l <= Len(Traces[tid].ev)
  /\ l' = l + 1
  /\ TSend \/ TAck \/ TNack \/ TCtorFail \/ TEnd \/ TSettle \/ TCbFail \/ TOther
  /\ cb' = IF Ev.ev # "cbfail" \/ cb = "yes" THEN cb ELSE IF Ev.nested THEN "nested" ELSE "yes"
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* every line of every trace was consumed
Consumed == LET n == Len(Traces) IN
  TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + Len(t.ev) + 1, 0, Traces)
=============================================================================
