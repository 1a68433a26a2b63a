------------------------------ MODULE Exports ------------------------------
(***************************************************************************)
(* What a program exports, and what the stack's outputs then are: plain    *)
(* data as itself, objects and resources as dictionaries of their public   *)
(* members, outputs as their values (secret if secret, unknown if unknown);*)
(* things that contain themselves are cut off where they appear again.     *)
(* A context has, beside what Values needs, shared: expressions of objects *)
(* that are referred to ([e |-> "sh", i]) from several places, also from   *)
(* inside themselves; and members: for each resource its public members    *)
(* (pairs name, expression).                                               *)
(***************************************************************************)
EXTENDS Values

\* a massaged value is a value whose outputs are quads (see Values: "outq")
OutQ(q) == [t |-> "outq", q |-> q]
\* the result of a callback: an output result is followed
Follow(q, v) == IF v.t = "outq" THEN Applied(q, v.q) ELSE Applied(q, P(v))

Private(k) == Len(k) > 0 /\ SubSeq(k, 1, 1) = "_"
Public(ks) == SelectSeq([i \in 1 .. Len(ks) |-> i], LAMBDA i : ~Private(ks[i]))

ResIx(c, n) == CHOOSE i \in DOMAIN c.res : c.res[i].r = n
RECURSIVE MassE(_, _, _)
RECURSIVE MassV(_, _, _)
MassRes(c, i, path) ==
  LET name == "r" \o ToString(i) m == c.members[i] ix == Public([k \in DOMAIN m |-> m[k][1]])
      ks == [k \in DOMAIN ix |-> m[ix[k]][1]]
      vs == [k \in DOMAIN ix |-> MassE(c, m[ix[k]][2], path \cup {name})]
  IN IF name \in path THEN OutQ(UrnOut(c.res[i]))
     ELSE [t |-> "dict", k |-> ks \o (IF c.dry THEN <<"@isPulumiResource">> ELSE <<>>),
           l |-> vs \o (IF c.dry THEN <<[t |-> "bool", b |-> TRUE]>> ELSE <<>>)]
\* a resource that was rebuilt from a reference: all there is of it here is its URN
MassRef(c, urn) == [t |-> "dict", k |-> <<"urn">> \o (IF c.dry THEN <<"@isPulumiResource">> ELSE <<>>),
                    l |-> <<OutQ(P(Str(urn)))>> \o (IF c.dry THEN <<[t |-> "bool", b |-> TRUE]>> ELSE <<>>)]
MassShared(c, i, path) ==
  LET name == "s" \o ToString(i) IN IF name \in path THEN NullV ELSE MassE(c, c.shared[i], path \cup {name})
MassOut(c, q, path) ==
  OutQ(IF Runs(c, q, FALSE) THEN Follow(q, MassV(c, q.v, path)) ELSE NotRun(c, q))

MassV(c, v, path) ==
  CASE v.t = "outq" -> MassOut(c, v.q, path)
    [] v.t = "sh" -> MassShared(c, v.i, path)
    [] v.t = "resobj" -> IF SubSeq(v.s, 1, 1) = "?" THEN MassRef(c, SubSeq(v.s, 2, Len(v.s))) ELSE MassRes(c, ResIx(c, v.s), path)
    [] v.t = "list" -> [v EXCEPT !.l = [i \in DOMAIN v.l |-> MassV(c, v.l[i], path)]]
    [] v.t = "dict" -> LET ix == Public(v.k) IN [v EXCEPT !.k = [i \in DOMAIN ix |-> v.k[ix[i]]], !.l = [i \in DOMAIN ix |-> MassV(c, v.l[ix[i]], path)]]
    [] v.t = "obj" -> [t |-> "dict", k |-> <<"a">>, l |-> <<MassV(c, v.v, path)>>]
    \* assets are objects like any other
    [] v.t = "asset" -> [t |-> "dict", k |-> <<v.a>>, l |-> <<MassV(c, v.v, path)>>]
    [] v.t = "arch" -> [t |-> "dict", k |-> <<v.a>>, l |-> <<MassV(c, v.v, path)>>]
    [] OTHER -> v
MassE(c, e, path) ==
  IF IsOut(e) THEN MassOut(c, Den(c, e), path)
  ELSE CASE e.e = "aw" -> MassOut(c, FromInput(c, e), path)
         [] e.e = "sh" -> MassShared(c, e.i, path)
         [] e.e = "res" -> MassRes(c, e.r, path)
         [] e.e = "list" -> [t |-> "list", l |-> [i \in DOMAIN e.l |-> MassE(c, e.l[i], path)]]
         [] e.e = "dict" -> LET ix == Public(e.k)
                            IN [t |-> "dict", k |-> [i \in DOMAIN ix |-> e.k[ix[i]]], l |-> [i \in DOMAIN ix |-> MassE(c, e.l[ix[i]], path)]]
         [] e.e = "obj" -> [t |-> "dict", k |-> <<"a">>, l |-> <<MassE(c, e.v, path)>>]
         [] e.e \in {"asset", "arch"} -> [t |-> "dict", k |-> <<e.a>>, l |-> <<MassE(c, e.v, path)>>]
         [] OTHER -> Plain(e)

\* the last export of a name wins; private names are not exported
LastOf(xs, n) == CHOOSE i \in DOMAIN xs : xs[i][1] = n /\ \A j \in DOMAIN xs : xs[j][1] = n => j <= i
Names(xs) == {xs[i][1] : i \in DOMAIN xs}
ExportsWire(c, xs) ==
  LET ns == SetToSeq({n \in Names(xs) : ~Private(n)})
  IN SerV(c, [t |-> "dict", k |-> ns, l |-> [i \in DOMAIN ns |-> MassE(c, xs[LastOf(xs, ns[i])][2], {})]])
\* outputs of a component: sent as given
OutputsWire(c, xs) == Ser(c, [e |-> "dict", k |-> [i \in DOMAIN xs |-> xs[i][1]], l |-> [i \in DOMAIN xs |-> xs[i][2]]], FALSE)
\* null outputs are left out
NonNull(w) == LET ix == SelectSeq([i \in 1 .. Len(w.k) |-> i], LAMBDA i : w.l[i].t # "null")
              IN [w EXCEPT !.k = [j \in DOMAIN ix |-> w.k[ix[j]]], !.l = [j \in DOMAIN ix |-> w.l[ix[j]]]]

\* ---- stack references: x is the resource's record, ne the expression of the wanted name
RefOutputs(c, x) == OutProp(c, x, "outputs")
RefSecretNames(c, x) == OutProp(c, x, "secret_output_names")
RefSecret(c, x, n) ==
  LET s == RefSecretNames(c, x)
  IN IF ~n.k \/ ~s.k \/ s.v.t = "null" THEN RefOutputs(c, x).s
     ELSE \E i \in DOMAIN s.v.l : s.v.l[i] = n.v
RefGet(c, x, ne, required) ==
  LET n == FromInput(c, ne)
      b == Gather(<<Deepen(c, n), Deepen(c, RefOutputs(c, x))>>, MkList)
      pick(v) == IF v[2].t # "dict" THEN Fails
                 ELSE IF v[1].t = "str" /\ HasKey(v[2], v[1].s) THEN P(v[2].l[Lookup(v[2], v[1].s)])
                 ELSE IF required THEN Fails ELSE P(NullV)
      q == IF Runs(c, b, FALSE) THEN Applied(b, pick(b.v.l)) ELSE NotRun(c, b)
  IN IF q.fail THEN q ELSE [q EXCEPT !.s = RefSecret(c, x, n)]
=============================================================================
