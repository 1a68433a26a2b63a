------------------------ MODULE Gen_ProviderServer ------------------------
(***************************************************************************)
(* Emits every history of requests of the given size, with the answers the *)
(* state machine says each of its requests gets, whatever the order.       *)
(***************************************************************************)
EXTENDS MC_ProviderServer, Json
Done == \A q \in Q : st[q] \in {"ok", "err"}
Emit == IF Done /\ made \subseteq (over \cup gone)
        THEN PrintT("@@" \o ToJson([plan |-> plan, st |-> st])) ELSE TRUE
\* one order is enough to find the answers: requests in turn, resources in turn
Min(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
GenNext ==
  LET todo == {x \in made : x \notin over /\ x \notin gone}
      news == {q \in Q : st[q] = "new"}
  IN IF \E q \in Q : st[q] = "in" THEN \E q \in Q : Body(q)
     ELSE IF todo # {} THEN LET x == Min(todo) IN IF WasSent(x) THEN Answer(x) ELSE Send(x)
     ELSE IF \E q \in Q : st[q] \in {"ran", "raised"} THEN \E q \in Q : Finish(q)
     ELSE news # {} /\ Begin(CHOOSE q \in news : \A p \in news : q <= p)
GenSpec == MCInit /\ [][GenNext]_vars
=============================================================================
