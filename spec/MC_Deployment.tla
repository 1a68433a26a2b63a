--------------------------- MODULE MC_Deployment ---------------------------
EXTENDS Deployment, TLC, Json
CONSTANTS N, Kinds, Mode, MaxDeps

Rec(r) == [kind : Kinds, par : 0 .. (r - 1), deps : SUBSET (1 .. (r - 1)), ins : SUBSET (1 .. (r - 1)), prov : {0}, provs : {{}},
           pkg : {"pk"}, aw : {{}}, soft : {{}}, late : {FALSE}]
\* parents are components (or custom resources); outputs of local components are only their URNs
WF(p) == \A r \in R(p) :
   /\ Cardinality(p[r].deps) + Cardinality(p[r].ins) <= MaxDeps
   /\ (p[r].kind = "comp" => p[r].ins = {})
   /\ p[r].deps \cap p[r].ins = {}
RECURSIVE Progs(_)
Progs(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, x) : q \in Progs(n - 1), x \in Rec(n)}

Init == Init0({p \in Progs(N) : WF(p) /\ ~InputCycle(p)})
\* Silent steps of different resources commute except through `edges` and `st`; all interleavings are explored.
Next == (outcome = "running" /\ (\/ \E r \in R0(prog) : Step(r) \/ Ack(r) \/ (Mode = "faults" /\ r # 0 /\ ~AnyFailed /\ Nack(r))
                                 \/ EndOk \/ EndError)) \/ Terminated
Spec == Init /\ [][Next]_vars
=============================================================================
