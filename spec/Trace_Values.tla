---------------------------- MODULE Trace_Values ----------------------------
(***************************************************************************)
(* Checks what the SDK did with value expressions against Values.tla.      *)
(* Every item of the input is one observation, in its context:             *)
(*   mode "den":  an output expression, what it resolved to, which of its  *)
(*                callbacks ran, how often, with what                      *)
(*   mode "ser":  an expression given as property x of a resource, and the *)
(*                request that was sent (or that none was)                 *)
(*   mode "prop": a property of a registered resource                      *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done

Bad(p, cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> p, clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[3] THEN TRUE ELSE Bad(cl[1], cl[2])

\* got: [fail, hang, v, known, secret, deps]
QuadClauses(p, q, got) ==
  {<<p, "settles", ~got.hang>>}
  \cup (IF got.hang THEN {} ELSE {<<p, "failure", q.fail = got.fail>>})
  \cup (IF got.hang \/ got.fail \/ q.fail THEN {}
        ELSE {<<p, "known", q.k = got.known>>,
              <<p, "secret", q.s = got.secret>>,
              <<p, "value", (q.k /\ got.known) => Eq(q.v, got.v)>>,
              <<p, "unknown-hidden", ~got.known => HasUnk(got.v) \/ got.v.t = "null" \/ (~q.k /\ Eq(q.v, got.v))>>,
              <<p, "deps", q.d = ToSet(got.deps)>>})

CallClauses(q, calls) ==
  {<<"C02", "callback-runs-once", \A i, j \in DOMAIN calls : calls[i].f = calls[j].f => i = j>>,
   <<"C02", "callback-runs", \A x \in q.calls : \E i \in DOMAIN calls : calls[i].f = x.f>>,
   <<"C02", "callback-does-not-run", \A i \in DOMAIN calls : \E x \in q.calls : calls[i].f = x.f>>,
   <<"C02", "callback-argument", \A i \in DOMAIN calls : \A x \in q.calls : calls[i].f = x.f => Eq(x.arg, calls[i].arg)>>}

\* got: [sent, x (wire), deps]
SerClauses(c, e, keep, got) ==
  LET r == Ser(c, e, keep)
      absent == ~r.fail /\ r.w.t = "null"  \* properties that are null are not sent
  IN {<<"C03", "failed-input-not-sent", r.fail => ~got.sent>>, <<"C03", "sent", ~r.fail => got.sent>>}
     \cup (IF r.fail \/ ~got.sent THEN {}
           ELSE IF absent THEN {<<"C03", "null-omitted", got.x.t \in {"null", "none"}>>}
           ELSE {<<"C03", "wire-value", Eq(r.w, got.x)>>,
                 <<"C03", "property-deps", Sent(c, r.d) = ToSet(got.deps)>>})

Check(it) ==
  CASE it.mode = "den" ->
         LET q == Den(it.c, it.e) IN Judge(QuadClauses("C01", q, it.got)) /\ Judge(CallClauses(q, it.calls))
    [] it.mode = "ser" -> Judge(SerClauses(it.c, it.e, it.keep, it.got))
    [] it.mode = "prop" -> Judge(QuadClauses("C04", OutProp(it.c, it.x, it.p), it.got))
    [] it.mode = "id" -> Judge(QuadClauses("C04", IdOut(it.x), it.got)) /\ Judge(QuadClauses("C04", UrnOut(it.x), it.goturn))
    \* an answer that cannot be decoded: everything settles all the same
    [] it.mode = "settle" -> Judge({<<"C05", "settles", ~it.hang>>})

Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ Check(Items[tid]) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
