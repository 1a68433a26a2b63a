----------------------------- MODULE Gen_Mocks -----------------------------
(***************************************************************************)
(* The life of the engine that mocks stand in for: resources are           *)
(* registered (and shown to the mock) while the program runs; then they    *)
(* are looked up and functions are called.  Every history is printed, and  *)
(* is run against the real mocks by the driver.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NR, NA
VARIABLES res, acts, reg, shown, failed

Kinds == {"cust", "comp", "read", "prov"}
Forms == {"dict", "tuple", "none", "failures", "raises"}
vars == <<res, acts, reg, shown, failed>>

Init == res = <<>> /\ acts = <<>> /\ reg = {} /\ shown = <<>> /\ failed = FALSE
\* the mock is shown it; what it returns is registered, unless it refuses
Register ==
  /\ acts = <<>> /\ Len(res) < NR
  /\ \E k \in Kinds, p \in {0} \cup {i \in DOMAIN res : res[i].kind = "comp"}, v \in {0} \cup {i \in DOMAIN res : res[i].kind = "prov"},
        f \in BOOLEAN, e \in BOOLEAN, u \in 0 .. Len(res) :
       /\ (v # 0 => k \in {"cust", "read"}) /\ (u # 0 => k = "cust" /\ res[u].kind # "comp")
       \* what hangs on a refused resource is never sent
       /\ (f => ~failed)
       /\ LET n == Len(res) + 1
              sent == \A d \in {p, v, u} \ {0} : d \in reg
          IN /\ res' = Append(res, [kind |-> k, par |-> p, prov |-> v, fail |-> f, echo |-> e, uses |-> u])
             /\ shown' = IF sent THEN Append(shown, n) ELSE shown
             /\ reg' = IF sent /\ ~f THEN reg \cup {n} ELSE reg
             /\ failed' = (failed \/ f)
  /\ UNCHANGED acts
Act ==
  /\ res # <<>> /\ ~failed /\ Len(acts) < NA
  /\ \/ \E of \in 0 .. Len(res) : acts' = Append(acts, [get |-> of, call |-> ""]) /\ failed' = (of \notin reg)
     \/ \E f \in Forms : acts' = Append(acts, [get |-> 0, call |-> f]) /\ failed' = (f \in {"failures", "raises"})
  /\ UNCHANGED <<res, reg, shown>>
Next == Register \/ Act
Spec == Init /\ [][Next]_vars

\* nothing is shown twice; what is known was shown; a resource is known only once all it hangs on is
Guarantees ==
  LET ok == /\ \A i, j \in DOMAIN shown : shown[i] = shown[j] => i = j
            /\ \A n \in reg : \E i \in DOMAIN shown : shown[i] = n
            /\ \A n \in reg : {res[n].par, res[n].prov, res[n].uses} \ {0} \subseteq reg
            /\ (~failed => reg = DOMAIN res)
  IN ok /\ (IF res = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([res |-> res, acts |-> acts, fails |-> failed])))
=============================================================================
