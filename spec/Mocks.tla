-------------------------------- MODULE Mocks --------------------------------
(***************************************************************************)
(* Programs under mocks (unit tests of programs): the engine is a registry *)
(* whose answers are what the mock returns.  What the mock is shown for a  *)
(* resource or a call, what the registry knows, and what programs get.     *)
(*                                                                         *)
(* it.res: what the program makes (kind, name, type, par, prov, ins) and   *)
(* what the mock returns for it (engid, state; echo: and its inputs).      *)
(***************************************************************************)
EXTENDS Calls

\* mocks are told of secrets and resource references, not of outputs
Base(it) == [dry |-> it.dry, sec |-> TRUE, ref |-> TRUE, outv |-> FALSE, res |-> <<>>, tr |-> <<>>, internal |-> <<>>]

\* what the mock is shown: the inputs as they are sent, without nulls and unknowns, secrets marked as such
Shown(dry, w) == DeserBag(w, dry, {})
\* what it returns, as it is sent back
Returned(c, r, shown) ==
  LET own == Ser(c, r.state, FALSE).w
      ix == IF r.echo THEN SelectSeq([i \in 1 .. Len(shown.k) |-> i], LAMBDA i : ~HasKey(own, shown.k[i])) ELSE <<>>
  IN NonNull([t |-> "dict", k |-> own.k \o [j \in DOMAIN ix |-> shown.k[ix[j]]], l |-> own.l \o [j \in DOMAIN ix |-> shown.l[ix[j]]]])

\* what is registered next, after what is in reg: its inputs may be made of what came before
Fact(it, urns, reg) ==
  LET n == Len(reg) + 1
      c == [Base(it) EXCEPT !.res = reg]
      r == it.res[n]
      s == Ser(c, r.ins, FALSE)
      w == IF s.fail THEN [t |-> "dict", k |-> <<>>, l |-> <<>>] ELSE NonNull(s.w)
  IN [r |-> ToString(n), urn |-> urns[n], rpc |-> IF r.kind = "read" THEN "read" ELSE "register",
      id |-> Str(IF r.kind = "read" THEN r.rid ELSE r.engid), custom |-> r.kind # "comp", sent |-> TRUE,
      ins |-> w, broken |-> s.fail, outs |-> Returned(c, r, Shown(it.dry, w)), deps |-> <<>>, tr |-> <<>>]

\* a resource that is looked up: what is registered under its URN
Found(c, of, name) == [c.res[of] EXCEPT !.r = name, !.rpc = "get", !.ins = [t |-> "dict", k |-> <<>>, l |-> <<>>]]

\* URNs: the stack, the project, the type (below its parents' types) and the name
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
UrnOk(it, urns, n) ==
  LET r == it.res[n]
      pre == "urn:pulumi:" \o it.stack \o "::" \o it.project \o "::"
      own == r.type \o "::" \o r.name
      up == IF r.par = 0 THEN "" ELSE it.res[r.par].type \o "$"
  IN /\ Len(urns[n]) >= Len(pre) /\ SubSeq(urns[n], 1, Len(pre)) = pre
     /\ Ends(urns[n], up \o own)
=============================================================================
