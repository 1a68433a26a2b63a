------------------------------ MODULE Dynamic ------------------------------
(***************************************************************************)
(* Dynamic providers (C20): what the plugin that serves them does with     *)
(* each of the engine's requests.                                          *)
(*                                                                         *)
(* A provider pv says what each of its operations does: k is "default"     *)
(* (not overridden), "raise", or "some".  Values are wire values; under    *)
(* the key PKey they hold [t |-> "prov", n |-> number of the provider].    *)
(***************************************************************************)
EXTENDS Values
PKey == "__provider"
Prov(n) == [t |-> "prov", n |-> n]
Get(d, key) == IF HasKey(d, key) THEN d.l[Lookup(d, key)] ELSE NullV
PutKey(d, key, v) == IF HasKey(d, key) THEN [d EXCEPT !.l[Lookup(d, key)] = v] ELSE [d EXCEPT !.k = Append(@, key), !.l = Append(@, v)]
EmptyD == [t |-> "dict", k |-> <<>>, l |-> <<>>]

\* what an operation is shown; only checks and diffs may meet unknowns
Internal(w) == {k \in ToSet(w.k) : Len(k) > 2 /\ SubSeq(k, 1, 2) = "__" /\ k # PKey}
Shown(w, keep) == DeserBag(w, keep, Internal(w))
\* what is sent back: what is null at the top is left out
SentBack(v) == LET ix == SelectSeq([i \in DOMAIN v.k |-> i], LAMBDA i : v.l[i].t # "null")
               IN [t |-> "dict", k |-> [j \in DOMAIN ix |-> v.k[ix[j]]], l |-> [j \in DOMAIN ix |-> v.l[ix[j]]]]

Keeps(op) == op \in {"check", "diff"}
Main(op, r) == IF op \in {"check", "diff", "update"} THEN r.news ELSE r.props
\* whose operation is run
Which(op, r) == LET p == Get(Main(op, r), PKey) IN IF Keeps(op) /\ p.t = "unk" THEN Get(r.olds, PKey).n ELSE p.n
\* with what
Args(op, r) ==
  CASE op = "check" -> [olds |-> Shown(r.olds, TRUE), news |-> Shown(r.news, TRUE)]
    [] op = "diff" -> [id |-> r.id, olds |-> Shown(r.olds, TRUE), news |-> Shown(r.news, TRUE)]
    [] op = "create" -> [props |-> Shown(r.props, FALSE)]
    [] op = "update" -> [id |-> r.id, olds |-> Shown(r.olds, FALSE), news |-> Shown(r.news, FALSE)]
    [] OTHER -> [id |-> r.id, props |-> Shown(r.props, FALSE)]

Failed == [fail |-> TRUE]
\* outputs always carry the provider of the request
WithProv(op, r, v) == SentBack(PutKey(v, PKey, Get(Shown(Main(op, r), Keeps(op)), PKey)))
GivenOr(o, v) == IF o.given THEN o.v ELSE v
Answer(op, r, pv) ==
  LET b == pv[op] a == Args(op, r)
  IN IF b.k = "raise" \/ (b.k = "default" /\ op = "create") THEN Failed
     ELSE CASE op = "check" ->
                 [fail |-> FALSE,
                  inputs |-> WithProv(op, r, IF b.k = "default" \/ b.ins.k # "v" THEN a.news ELSE b.ins.v),
                  failures |-> IF b.k = "default" \/ ~b.fails.given THEN <<>> ELSE b.fails.l]
            [] op = "diff" ->
                 IF b.k = "default" THEN [fail |-> FALSE, changes |-> "unknown", replaces |-> <<>>, dbr |-> FALSE, stables |-> <<>>]
                 ELSE [fail |-> FALSE, changes |-> IF b.changes = "T" THEN "some" ELSE IF b.changes = "F" THEN "none" ELSE "unknown",
                       replaces |-> IF b.replaces.given THEN b.replaces.l ELSE <<>>, dbr |-> b.dbr = "T",
                       stables |-> IF b.stables.given THEN b.stables.l ELSE <<>>]
            [] op = "create" -> [fail |-> FALSE, id |-> b.id, props |-> WithProv(op, r, GivenOr(b.outs, EmptyD))]
            [] op = "update" -> [fail |-> FALSE, props |-> WithProv(op, r, IF b.k = "default" THEN EmptyD ELSE GivenOr(b.outs, EmptyD))]
            [] op = "read" -> [fail |-> FALSE, id |-> IF b.k = "default" THEN r.id ELSE IF b.id.given THEN b.id.s ELSE "",
                               props |-> WithProv(op, r, IF b.k = "default" \/ b.outs.k = "same" THEN a.props ELSE IF b.outs.k = "v" THEN b.outs.v ELSE EmptyD)]
            [] op = "delete" -> [fail |-> FALSE]
=============================================================================
