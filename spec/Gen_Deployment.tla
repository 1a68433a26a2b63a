--------------------------- MODULE Gen_Deployment ---------------------------
(***************************************************************************)
(* Prints every program of MC_Deployment's Init, for the driver to run     *)
(* against the implementation under every order of answers.                *)
(***************************************************************************)
EXTENDS MC_Deployment
ASSUME \A p \in {q \in Progs(N) : WF(q)} :
   PrintT("@@" \o ToJson([cyc |-> InputCycle(p), p |-> [i \in 1 .. Len(p) |->
     [kind |-> p[i].kind, par |-> p[i].par, deps |-> p[i].deps, ins |-> p[i].ins]]]))
GInit == Init0({<<>>})
GNext == UNCHANGED vars
=============================================================================
