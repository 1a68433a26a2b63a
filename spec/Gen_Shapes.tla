----------------------------- MODULE Gen_Shapes -----------------------------
(***************************************************************************)
(* Two families of programs that the exhaustive enumeration of small       *)
(* programs does not reach, printed for the driver:                        *)
(*   rings  K components with a child each; every child depends on (or     *)
(*          takes an input from) some of the components: every wait graph  *)
(*          over K nodes                                                   *)
(*   provs  providers of two packages, a component (maybe below another)   *)
(*          and a leaf, with every placement of provider options           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Shape, K, MaxOut

Base(kind, par) == [kind |-> kind, par |-> par, deps |-> {}, ins |-> {}, prov |-> 0, provs |-> {}, pkg |-> "pk"]

\* ---- rings
Rings ==
  LET cs == 1 .. K
      outs == {S \in SUBSET cs : Cardinality(S) <= MaxOut}
  IN {[i \in 1 .. 2 * K |-> IF i <= K THEN Base("comp", IF nest /\ i > 1 THEN i - 1 ELSE 0)
                            ELSE [Base(kind, i - K) EXCEPT !.deps = f[i - K]]] :
        f \in [cs -> outs], nest \in BOOLEAN, kind \in {"cust", "rcomp"}}

\* ---- provs: 1 and 2 provide pk, 3 provides qk; 4 is a component, 5 a component below it, 6 the leaf
ProvLists == {{}, {1}, {2}, {3}, {1, 3}, {2, 3}}
Provs ==
  {<<[Base("prov", 0) EXCEPT !.pkg = "pk"], [Base("prov", 0) EXCEPT !.pkg = "pk"], [Base("prov", 0) EXCEPT !.pkg = "qk"],
     [Base("comp", 0) EXCEPT !.prov = a, !.provs = s], [Base("comp", 4) EXCEPT !.provs = t],
     [Base(kind, 5) EXCEPT !.prov = b, !.provs = u, !.pkg = pk]>> :
     a \in {0, 1, 2}, b \in {0, 1, 2}, s \in ProvLists, t \in {{}, {2}, {3}}, u \in ProvLists,
     kind \in {"cust", "rcomp"}, pk \in {"pk", "qk"}}

ASSUME \A p \in (IF Shape = "rings" THEN Rings ELSE {q \in Provs : q[6].pkg = "pk" \/ q[6].prov = 0}) : PrintT("@@" \o ToJson([p |-> p]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
