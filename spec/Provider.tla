------------------------------ MODULE Provider ------------------------------
(***************************************************************************)
(* Component providers: what the program's code is given for a Construct   *)
(* or Call request, and what the answer is, as a function of that request  *)
(* alone.  A request's context has what Values needs: res (the component,  *)
(* for Construct, and the resources made for it), internal, the features.  *)
(* (How requests that arrive together are kept apart: see ProviderServer.) *)
(***************************************************************************)
EXTENDS Values

\* ---- inputs
RECURSIVE HasOutput(_)
HasOutput(v) == v.t = "outq" \/ (v.t \in {"list", "dict"} /\ \E i \in DOMAIN v.l : HasOutput(v.l[i]))
DepsGiven(deps, k) == UNION {ToSet(deps[i][2]) : i \in {j \in DOMAIN deps : deps[j][1] = k}}
\* a property becomes an output if it is secret or depends on something - unless outputs inside it say so themselves
Select(c, w, deps) ==
  LET v == Deser(w, TRUE, ToSet(c.internal))
  IN IF ~IsSec(v) /\ (deps = {} \/ HasOutput(v) \/ (v.t = "resobj" /\ deps = {v.s})) THEN v  \* (a resource already depends on itself)
     ELSE [t |-> "outq", q |-> Q(Unwrap(v), TRUE, IsSec(v), deps, {})]
\* nulls are left out; so are names the engine keeps to itself, but for methods (one of their arguments is __self__)
Given(c, kind, inputs, deps) ==
  LET top == IF kind = "call" THEN {} ELSE ToSet(c.internal)
      ix == SelectSeq([i \in 1 .. Len(inputs.k) |-> i],
                      LAMBDA i : inputs.k[i] \notin top /\ Deser(inputs.l[i], TRUE, ToSet(c.internal)).t # "null")
  IN [t |-> "dict", k |-> [j \in DOMAIN ix |-> inputs.k[ix[j]]],
      l |-> [j \in DOMAIN ix |-> Select(c, inputs.l[ix[j]], DepsGiven(deps, inputs.k[ix[j]]))]]

\* ---- what the program's code makes of them: its expressions, with the inputs put in
RECURSIVE Subst(_, _)
Subst(g, e) ==
  IF e.e = "in" THEN IF ~HasKey(g, e.k) THEN [e |-> "null"]
                     ELSE LET v == g.l[Lookup(g, e.k)] IN IF v.t = "outq" THEN [e |-> "gout", q |-> v.q] ELSE [e |-> "gval", val |-> v]
  ELSE LET a == IF Has(e, "v") THEN [e EXCEPT !.v = Subst(g, e.v)] ELSE e
           b == IF Has(a, "w") THEN [a EXCEPT !.w = Subst(g, a.w)] ELSE a
       IN IF Has(b, "l") THEN [b EXCEPT !.l = [i \in DOMAIN b.l |-> Subst(g, b.l[i])]] ELSE b

\* ---- answers
StateExprs(g, state) == [i \in DOMAIN state |-> <<state[i][1], Subst(g, state[i][2])>>]
\* of a component's state, the ID and the URN are not sent; nulls never are
StateWire(c, kind, g, state) ==
  LET s == StateExprs(g, state)
      ix == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : kind = "call" \/ s[i][1] \notin {"id", "urn"})
  IN [j \in DOMAIN ix |-> [k |-> s[ix[j]][1], r |-> Ser(c, s[ix[j]][2], FALSE)]]
\* (at the top level only)
NoNulls(w) == LET ix == SelectSeq([i \in 1 .. Len(w.k) |-> i], LAMBDA i : w.l[i].t # "null")
              IN [w EXCEPT !.k = [j \in DOMAIN ix |-> w.k[ix[j]]], !.l = [j \in DOMAIN ix |-> w.l[ix[j]]]]
KidFails(c, g, kid) == Ser(c, Subst(g, kid), FALSE).fail
=============================================================================
