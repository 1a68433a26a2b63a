---------------------------- MODULE Gen_Registry ----------------------------
(***************************************************************************)
(* Every history of registrations; the guarantees of C22 hold of them.     *)
(***************************************************************************)
EXTENDS Registry, Json
CONSTANTS NR
VARIABLES tries, regs

V(a, b, c, p) == [n |-> <<a, b, c>>, pre |-> p]
Versions == {NoV, V(1, 0, 0, 9), V(1, 0, 0, 1), V(1, 1, 0, 9), V(1, 1, 2, 9), V(1, 2, 1, 9), V(1, 2, 1, 2), V(2, 0, 0, 9)}
Keys == {"A", "B"}
X(v, key) == [kind |-> "mod", key |-> key, v |-> v, no |-> Len(tries) + 1]

Init == tries = <<>> /\ regs = <<>>
Register == /\ Len(tries) < NR
            /\ \E v \in Versions, key \in Keys :
                 LET x == X(v, key)
                 IN /\ tries' = Append(tries, x)
                    /\ regs' = IF Accepts(regs, x) THEN Append(regs, x) ELSE regs
Next == Register
Spec == Init /\ [][Next]_<<tries, regs>>

ReverseS(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Guarantees ==
  LET ok == \A key \in Keys, want \in Versions :
        LET b == Best(regs, "mod", key, want)
            cs == Candidates(regs, "mod", key, want)
            o == Best(ReverseS(regs), "mod", key, want)
        IN /\ (b = 0) = (cs = {})
           \* the highest that fits, whatever the order of registration
           /\ (b # 0 => b \in cs /\ \A j \in cs : j = b \/ Less(regs[j].v, regs[b].v))
           /\ (b # 0 => ReverseS(regs)[o] = regs[b])
           \* exactly what was asked for is always found
           /\ \A i \in DOMAIN regs : (regs[i].key = key /\ regs[i].v = want) => b # 0
           \* one without a version is the only one of its kind
           /\ \A i, j \in DOMAIN regs : (i # j /\ regs[i].key = regs[j].key) => IsV(regs[i].v) /\ regs[i].v # regs[j].v
  IN ok /\ (IF Len(tries) = 0 THEN TRUE ELSE PrintT("@@" \o ToJson([tries |-> tries])))
=============================================================================
