------------------------- MODULE MC_ProviderServer -------------------------
EXTENDS ProviderServer, TLC
CONSTANTS NQ, NR
Plans ==
  LET P == UNION {{[n |-> n, refused |-> a, broken |-> b, raises |-> r] : a \in SUBSET (1 .. n), b \in SUBSET (1 .. n), r \in BOOLEAN} : n \in 0 .. NR}
      P1 == {p \in P : p.refused \cap p.broken = {}}
  IN [1 .. NQ -> P1]
MCInit == Init0(Plans)
Spec == MCInit /\ [][Next]_vars /\ Fair
=============================================================================
