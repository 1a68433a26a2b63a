----------------------------- MODULE Gen_Values -----------------------------
(***************************************************************************)
(* Every output expression over a set of leaves, up to a depth: checks the *)
(* guarantees of C01..C03 on the meanings of Values.tla (invariants), and  *)
(* emits the expressions, to be run with the SDK.                          *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils
CONSTANTS Depth,   \* 1 or 2: operators applied on top of each other
          Mode,    \* "mc": check the invariants; "gen": also emit
          Wide     \* whether binary operators range over every pair at depth 2

L(v, known, secret, deps) == [e |-> "leaf", v |-> v, known |-> known, secret |-> secret, deps |-> deps]
S(s) == [e |-> "str", s |-> s]
LstE(l) == [e |-> "list", l |-> l]
Leaves ==
  {L(S("p"), TRUE, FALSE, <<1>>),
   L(S("S1"), TRUE, TRUE, <<2>>),
   L(S("U1"), FALSE, FALSE, <<1>>),       \* unknown: its payload is nobody's business
   L(S("S1"), FALSE, TRUE, <<2>>),
   L(LstE(<<S("p"), [e |-> "rawunk"]>>), TRUE, FALSE, <<>>),
   L([e |-> "dict", k |-> <<"a">>, l |-> <<S("S1")>>], TRUE, TRUE, <<1>>),
   [e |-> "leaf", known |-> TRUE, secret |-> FALSE, deps |-> <<>>, fail |-> TRUE],
   [e |-> "out", r |-> 1, p |-> "id"]}
Plains == {S("q"), [e |-> "null"], [e |-> "res", r |-> 1]}

Ap(f, x, rwu) == [e |-> "apply", v |-> x, f |-> f, rwu |-> rwu]
Unary(x) ==
  {[e |-> "secret", v |-> x], [e |-> "unsecret", v |-> x], [e |-> "from", v |-> x], [e |-> "from", v |-> [e |-> "aw", v |-> x]],
   [e |-> "from", v |-> LstE(<<x>>)], [e |-> "alln", k |-> <<"a">>, l |-> <<x>>], [e |-> "concat", l |-> <<S("q"), x>>],
   [e |-> "idx", v |-> x, n |-> 0], [e |-> "idx", v |-> x, i |-> "a"], [e |-> "attr", v |-> x, i |-> "a"],
   [e |-> "apply", v |-> x, f |-> "const", rwu |-> FALSE, w |-> S("q")],
   [e |-> "apply", v |-> x, f |-> "const", rwu |-> TRUE, w |-> S("q")],
   [e |-> "apply", v |-> x, f |-> "nested", rwu |-> FALSE, w |-> LstE(<<x>>)]}
  \cup {Ap(f, x, rwu) : f \in {"ident", "wrap", "raise", "await", "outof"}, rwu \in BOOLEAN}
Binary(x, y) ==
  {[e |-> "all", l |-> <<x, y>>],
   [e |-> "apply", v |-> x, f |-> "pair", rwu |-> FALSE, w |-> y], [e |-> "apply", v |-> x, f |-> "pair", rwu |-> TRUE, w |-> y],
   [e |-> "apply", v |-> x, f |-> "nested", rwu |-> FALSE, w |-> [e |-> "dict", k |-> <<"a">>, l |-> <<y>>]],
   [e |-> "from", v |-> [e |-> "dict", k |-> <<"a", "b">>, l |-> <<x, y>>]], [e |-> "concat", l |-> <<x, y>>]}
\* the expressions with one more operator; depth counts operators on a path
Grow(x, d) ==
  Unary(x) \cup (IF d = 0 \/ Wide THEN UNION {Binary(x, y) \cup (IF d = 0 THEN {} ELSE Binary(y, x)) : y \in Leaves} ELSE {})
  \cup (IF d = 0 THEN {[e |-> "all", l |-> <<x, y>>] : y \in Plains} ELSE {})

\* numbers the callbacks by their place
RECURSIVE Number(_, _)
Number(x, path) ==
  LET a == IF x.e = "apply" THEN [x EXCEPT !.v = Number(x.v, path \o "v")] @@ [id |-> path]
           ELSE IF x.e = "leaf" THEN x @@ [id |-> path]
           ELSE IF x.e = "aw" THEN [x EXCEPT !.v = Number(x.v, path \o "v")] @@ [id |-> path]
           ELSE IF Has(x, "v") THEN [x EXCEPT !.v = Number(x.v, path \o "v")] ELSE x
      b == IF Has(a, "w") THEN [a EXCEPT !.w = Number(a.w, path \o "w")] ELSE a
  IN IF Has(b, "l") THEN [b EXCEPT !.l = [i \in DOMAIN b.l |-> Number(b.l[i], path \o ToString(i))]] ELSE b

Bag == [t |-> "dict", k |-> <<>>, l |-> <<>>]
Res(i) == [r |-> ToString(i), urn |-> "urn:" \o ToString(i), rpc |-> "register", id |-> Str("i"), custom |-> TRUE, sent |-> TRUE, ins |-> Bag,
           outs |-> Bag, deps |-> <<>>, tr |-> <<>>]
Ctx(dry, sec, outv) == [dry |-> dry, sec |-> sec, ref |-> TRUE, outv |-> outv, res |-> <<Res(1), Res(2)>>, tr |-> <<>>, internal |-> <<>>]
Ctxs == {Ctx(d, s, o) : d \in BOOLEAN, s \in BOOLEAN, o \in BOOLEAN}

VARIABLES raw, depth
vars == <<raw, depth>>
Init == raw \in Leaves /\ depth = 0
x == Number(raw, "f")
Emit(y) == IF Mode = "gen" /\ depth + 1 = Depth THEN PrintT("@@" \o ToJson([x |-> Number(y, "f")])) ELSE TRUE
Next == depth < Depth /\ depth' = depth + 1 /\ raw' \in Grow(raw, depth) /\ Emit(raw')
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Text(_)   \* all texts visible in a value or wire value, but for those inside a secret
Text(v) ==
  CASE v.t = "str" -> {v.s}
    [] v.t \in {"list", "dict"} -> UNION {Text(v.l[i]) : i \in DOMAIN v.l}
    [] v.t = "outv" -> IF v.secret THEN {} ELSE Text(v.v)
    [] v.t \in {"asset", "arch"} -> Text(v.v)
    [] OTHER -> {}
RECURSIVE AllText(_)  \* inside secrets too
AllText(v) ==
  CASE v.t = "str" -> {v.s}
    [] v.t \in {"list", "dict"} -> UNION {AllText(v.l[i]) : i \in DOMAIN v.l}
    [] v.t \in {"outv", "asset", "arch", "sec"} -> AllText(v.v)
    [] OTHER -> {}
\* all the nodes of an expression
RECURSIVE Nodes(_)
Nodes(y) ==
  {y} \cup (IF Has(y, "v") /\ Has(y.v, "e") THEN Nodes(y.v) ELSE {}) \cup (IF Has(y, "w") THEN Nodes(y.w) ELSE {})
  \cup (IF Has(y, "l") THEN UNION {Nodes(y.l[i]) : i \in DOMAIN y.l} ELSE {})
Ops(y) == {n.e : n \in Nodes(y)}
Funs(y) == {n.f : n \in {m \in Nodes(y) : m.e = "apply"}}
Leafs(y) == {n \in Nodes(y) : n.e = "leaf"}
Unknowns(y) == {n \in Leafs(y) : ~n.known} \cup {n \in Nodes(y) : n.e = "rawunk"}

Theorems(c, q, w, X) ==
  {\* C03: a secret's text is never sent outside a secret (to an engine that knows secrets), unless secrecy was removed
   <<"SecretNeverLeaks", c.sec /\ "unsecret" \notin Ops(X) => "S1" \notin Text(w.w)>>,
   <<"SecretMarked", ~q.fail /\ q.k /\ "unsecret" \notin Ops(X) /\ "S1" \in AllText(q.v) => q.s>>,
   \* C02, C03: what is unknown in a preview is never sent, and no callback sees it
   <<"UnknownNeverSent", c.dry => "U1" \notin AllText(w.w)>>,
   <<"UnknownNeverSeen", c.dry => \A k \in q.calls : "U1" \notin AllText(k.arg)>>,
   <<"UnknownOnlyIfAsked", 
       c.dry => \A k \in q.calls : HasUnk(k.arg) => \E n \in Nodes(X) : n.e = "apply" /\ n.id = k.f /\ Opt(n, "rwu")>>,
   \* C01: an unknown in, an unknown out, unless a callback that accepts unknowns decides otherwise; and nothing else
   \* makes anything unknown
   <<"NothingUnknown", Unknowns(X) = {} /\ ~q.fail => q.k>>,
   <<"KnownHasNoUnknowns", q.k => ~HasUnk(q.v)>>,
   \* C01: failures propagate: in an update every part is computed
   <<"FailurePropagates", (~c.dry \/ Unknowns(X) = {}) /\ "nested" \notin Funs(X) /\ (\E n \in Leafs(X) : Opt(n, "fail")) => q.fail>>,
   \* C01: every resource a part depends on is kept
   <<"DepsKept", 
       (~c.dry \/ Unknowns(X) = {}) /\ ~q.fail /\ "nested" \notin Funs(X) =>
          UNION {{ToString(i) : i \in ToSet(n.deps)} : n \in Leafs(X)} \subseteq q.d>>,
   \* C02: in an update every callback runs unless its input failed
   <<"AllRun", ~c.dry /\ ~q.fail /\ "nested" \notin Funs(X) => {n.id : n \in {m \in Nodes(X) : m.e = "apply"}} = {k.f : k \in q.calls}>>,
   \* C03: what is sent depends on what the value depends on; failed inputs are never sent
   <<"SentDeps", ~w.fail => q.d \subseteq w.d>>,
   <<"FailedNotSent", q.fail => w.fail>>,
   \* an engine that knows output values is told exactly what the value is
   <<"OutputValue", c.outv /\ ~w.fail => w.w.t = "outv" /\ w.w.known = q.k /\ w.w.secret = q.s>>}

Guarantees ==
  LET X == x IN
  \A c \in Ctxs :
    LET q == Den(c, X)
        w == Ser(c, X, TRUE)
        bad == {t[1] : t \in {t \in Theorems(c, q, w, X) : ~t[2]}}
    IN IF bad = {} THEN TRUE ELSE PrintT(<<"broken", bad, c, X>>) /\ FALSE
=============================================================================
