--------------------------- MODULE ProviderServer ---------------------------
(***************************************************************************)
(* The servicer of component providers as a state machine: requests come   *)
(* at any time and are served one at a time, because serving one changes   *)
(* globals: the settings (which monitor resources are sent to) and the     *)
(* record of outstanding RPCs and of their first failure.  The switches    *)
(* name what keeps requests apart; MC_ProviderServer shows that each is    *)
(* needed.                                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Locked,    \* a request begins only when no other is being served
          Forget,    \* the record of failures is dropped when a request has been served
          Abandon,   \* RPCs that a request left behind are given up with it
          AtOnce     \* RPCs are outstanding as soon as they are made

VARIABLES plan,      \* per request: n resources, refused ones, broken ones (inputs that fail), raises (the code itself)
          st,        \* per request: "new", "in", "ran", "raised", "ok", "err"
          whose,     \* the request the settings are of (0: none)
          made, sent, over, gone,   \* RPCs <<request, resource>>; sent: <<request, resource, monitor>>; over: answered or failed
          exc        \* the request of the first failure on record (0: none)
vars == <<plan, st, whose, made, sent, over, gone, exc>>

Q == DOMAIN plan
InService == {q \in Q : st[q] \in {"in", "ran", "raised"}}
WasSent(x) == \E m \in Q : <<x[1], x[2], m>> \in sent
Of(q, S) == {x \in S : x[1] = q}
\* what a request waits for before it answers
Waited == {x \in made : AtOnce \/ WasSent(x)} \ (over \cup gone)

Begin(q) ==
  /\ st[q] = "new" /\ (Locked => InService = {})
  /\ st' = [st EXCEPT ![q] = "in"] /\ whose' = q
  /\ UNCHANGED <<plan, made, sent, over, gone, exc>>
\* the provider's code: makes its resources, or some of them and raises
Body(q) ==
  /\ st[q] = "in"
  /\ \E k \in 0 .. plan[q].n :
       /\ (~plan[q].raises => k = plan[q].n)
       /\ made' = made \cup {<<q, r>> : r \in 1 .. k}
  /\ st' = [st EXCEPT ![q] = IF plan[q].raises THEN "raised" ELSE "ran"]
  /\ UNCHANGED <<plan, whose, sent, over, gone, exc>>
Fail(x) == exc' = IF exc = 0 THEN x[1] ELSE exc
Send(x) ==
  /\ x \in made \ (gone \cup over) /\ ~WasSent(x)
  /\ IF x[2] \in plan[x[1]].broken
     THEN over' = over \cup {x} /\ Fail(x) /\ UNCHANGED sent
     ELSE sent' = sent \cup {<<x[1], x[2], whose>>} /\ UNCHANGED <<over, exc>>
  /\ UNCHANGED <<plan, st, whose, made, gone>>
Answer(x) ==
  /\ WasSent(x) /\ x \notin over
  /\ over' = over \cup {x}
  /\ IF x[2] \in plan[x[1]].refused /\ x \notin gone THEN Fail(x) ELSE UNCHANGED exc
  /\ UNCHANGED <<plan, st, whose, made, sent, gone>>
Finish(q) ==
  /\ \/ st[q] = "raised"
     \/ st[q] = "ran" /\ (exc # 0 \/ Waited = {})
  /\ st' = [st EXCEPT ![q] = IF st[q] = "raised" \/ exc # 0 THEN "err" ELSE "ok"]
  /\ gone' = IF Abandon THEN gone \cup (made \ over) ELSE gone
  /\ exc' = IF Forget THEN 0 ELSE exc
  /\ UNCHANGED <<plan, whose, made, sent, over>>

Init0(plans) ==
  /\ plan \in plans
  /\ st = [q \in DOMAIN plan |-> "new"] /\ whose = 0 /\ made = {} /\ sent = {} /\ over = {} /\ gone = {} /\ exc = 0
Next ==
  \/ \E q \in Q : Begin(q) \/ Body(q) \/ Finish(q)
  \/ \E x \in made : Send(x) \/ Answer(x)
Fair == WF_vars(Next)

\* ---- the guarantees
Alone == Cardinality(InService) <= 1
\* resources go to the monitor of the request they belong to
OwnMonitor == \A s \in sent : s[1] = s[3]
\* an answer depends on its own request only
Troubled(q) == plan[q].raises \/ plan[q].broken # {} \/ plan[q].refused # {}
OwnAnswer == \A q \in Q : (st[q] = "err" => Troubled(q)) /\ (st[q] = "ok" => ~Troubled(q))
\* and comes when its resources are registered
Settled == \A q \in Q : st[q] = "ok" => Of(q, made) = {<<q, r>> : r \in 1 .. plan[q].n} /\ Of(q, made) \subseteq over
AllServed == <>(\A q \in Q : st[q] \in {"ok", "err"})

\* the same, for one recorded event
BeginClauses(q) == {<<"one-at-a-time", InService = {}>>, <<"once", st[q] = "new">>}
SendClauses(x, m) == {<<"own-monitor", m = x[1]>>, <<"within-its-request", x[1] \in InService>>}
=============================================================================
