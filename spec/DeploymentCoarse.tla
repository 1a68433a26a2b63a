-------------------------- MODULE DeploymentCoarse --------------------------
(***************************************************************************)
(* The observable send rule of Deployment: what a register request may     *)
(* look like and when it may be sent, in terms of what an engine sees.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, DeploymentStatic

\* st: what the engine has answered so far; par, prov, provs, D: what the request names.
\* Each clause is <<property, name, holds>>.
SendClauses(p, st, r, par, prov, provs, D) ==
  IF r = 0 THEN {<<"C06", "stack-first", \A x \in R(p) : st[x] \in {"none", "ctor"}>>}
  ELSE
  LET W == Wanted(p, r)
      N == Needed(p, r)
      G == StaticWaits(p)
      named == {par} \cup {prov} \cup {e[2] : e \in provs}
      waitsFor == named \cup HiddenHard(p, r)
  IN {<<"C06", "once", st[r] = "none">>,
      <<"C10", "parent", par = p[r].par>>,
      <<"C06", "parent-first", par \in R0(p) => st[par] = "ok">>,
      <<"C11", "provider", p[r].kind = "get" \/ prov = ReqProvider(p, r)>>,
      <<"C11", "providers", provs = ReqProviders(p, r)>>,
      <<"C06", "provider-first", \A q \in {prov} \cup {e[2] : e \in provs} : (q # 0 /\ q \in R(p)) => st[q] = "ok">>,
      <<"C06", "inputs-first", \A i \in HiddenHard(p, r) : st[i] = "ok">>,
      <<"C06", "dependencies-first", \A d \in D \cap R(p) : st[d] = "ok">>,
      <<"C06", "depends-on-first", p[r].kind = "get" \/ \A d \in N \ D : st[d] # "ok" => Reaches(G, d, r)>>,
      <<"C07", "no-invented-dependency", D \subseteq W>>,
      <<"C07", "dependency-dropped", p[r].kind = "get" \/ \A d \in N \ D : Reaches(G, d, r)>>,
      <<"C09", "sent-after-failure", \A d \in waitsFor : d \in R0(p) => st[d] # "fail">>}

\* The dependencies listed for one property whose outputs come from `ins`.
PDepsOK(p, r, ins, soft, got, D) ==
  LET W == Expand(p, ins)
      N == ExpandEarly(p, ins \ soft)
      G == StaticWaits(p)
  IN /\ got \subseteq W
     /\ got \subseteq D
     /\ \A d \in N \ got : Reaches(G, d, r)
=============================================================================
