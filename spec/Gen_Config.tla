----------------------------- MODULE Gen_Config -----------------------------
(***************************************************************************)
(* Every short history of changes to the configuration; C19's guarantees   *)
(* hold after each.                                                        *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS NOps
VARIABLES ops, cfg, prev
KeysOf == {"p:a-b", "p:a_b", "q:a-b"}
Texts == {"1", "true"}
M1 == <<[k |-> "p:a-b", s |-> "7"]>>
M2 == <<[k |-> "p:a_b", s |-> "true"], [k |-> "q:a-b", s |-> "x"]>>
NoKeys == [given |-> FALSE, keys |-> <<>>]
OpSet ==
  {[op |-> "set", k |-> k, s |-> s] : k \in KeysOf, s \in Texts}
  \cup {[op |-> "setall", m |-> m, sk |-> sk] : m \in {<<>>, M1, M2}, sk \in {NoKeys, [given |-> TRUE, keys |-> <<"p:a_b">>]}}
  \cup {[op |-> "env", k |-> n, s |-> "2"] : n \in {"PULUMI_CONFIG_P_A_B", "PULUMI_CONFIG_Q_A_B"}}
  \cup {[op |-> "delenv", k |-> "PULUMI_CONFIG_P_A_B"]}
  \cup {[op |-> "bag", m |-> m] : m \in {<<>>, M1, M2}}
Init == ops = <<>> /\ cfg = [set |-> <<>>, secret |-> {}, env |-> <<>>, bag |-> <<>>, project |-> "p"] /\ prev = cfg
Next == /\ Len(ops) < NOps
        /\ \E o \in OpSet : ops' = Append(ops, o) /\ cfg' = Change(cfg, o) /\ prev' = cfg
Spec == Init /\ [][Next]_<<ops, cfg, prev>>

Q(k, kind, need) == [name |-> SubSeq(k, 1, 1), key |-> From(k, 3), kind |-> kind, need |-> need, def |-> [t |-> "str", s |-> "default"], asts |-> <<>>]
Guarantees ==
  LET ok == \A k \in KeysOf :
        /\ \A kind \in {"str", "bool", "int", "float", "object"} :
             LET g == Look(cfg, Q(k, kind, FALSE)) r == Look(cfg, Q(k, kind, TRUE))
             IN \* the default, or a missing key, exactly when nothing holds the key
                /\ (r.t = "missing") = ~Present(cfg, k)
                /\ (g.t = "ok" /\ g.v = [t |-> "str", s |-> "default"]) = ~Present(cfg, k)
                /\ Present(cfg, k) => g = r
                /\ (kind = "str" /\ Present(cfg, k)) => g = Ok([t |-> "str", s |-> Text(cfg, k)])
        \* setting one key never changes another
        /\ LET o == IF ops = <<>> THEN [op |-> "none"] ELSE ops[Len(ops)]
           IN o.op = "set" => IF o.k = k THEN Look(cfg, Q(k, "str", TRUE)) = Ok([t |-> "str", s |-> o.s])
                              ELSE Look(cfg, Q(k, "str", TRUE)) = Look(prev, Q(k, "str", TRUE))
        \* what all of it was replaced by is all there is, besides the environment
        /\ LET o == IF ops = <<>> THEN [op |-> "none"] ELSE ops[Len(ops)]
           IN o.op = "setall" => (Present(cfg, k) = (In(o.m, k) \/ In(cfg.env, EnvName(k)) \/ In(cfg.bag, k)))
  IN ok /\ (IF Len(ops) < NOps THEN TRUE ELSE PrintT("@@" \o ToJson([ops |-> ops])))
=============================================================================
