----------------------------- MODULE Gen_Calls -----------------------------
(***************************************************************************)
(* Every single invocation and call over an alphabet of arguments, options *)
(* and answers, next to five resources: checks what C16 promises on the    *)
(* meanings of Calls.tla, and emits the calls, to be made with the SDK.    *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

S(s) == [e |-> "str", s |-> s]
L(id, v, known, secret, deps) == [e |-> "leaf", id |-> id, v |-> v, known |-> known, secret |-> secret, deps |-> deps, now |-> FALSE]
ArgExprs ==
  {S("p"), [e |-> "null"], [e |-> "rawunk"], [e |-> "res", r |-> 4], [e |-> "list", l |-> <<L("l1", S("p"), TRUE, FALSE, <<4>>)>>, form |-> FALSE],
   L("l2", S("S1"), TRUE, TRUE, <<5>>), L("l3", S("U1"), FALSE, FALSE, <<4>>), L("l4", S("S1"), FALSE, TRUE, <<>>),
   [e |-> "leaf", id |-> "l5", known |-> TRUE, secret |-> FALSE, deps |-> <<>>, fail |-> TRUE, now |-> FALSE],
   [e |-> "out", r |-> 5, p |-> "id"], [e |-> "out", r |-> 3, p |-> "urn"],
   [e |-> "aw", id |-> "a1", now |-> FALSE, v |-> [e |-> "secret", v |-> S("S1")]],
   [e |-> "dict", k |-> <<"x_y">>, l |-> <<L("l6", S("S2"), TRUE, TRUE, <<3>>)>>, form |-> FALSE]}
O(par, prov, v, u) == [k |-> "opts", par |-> par, prov |-> prov, version |-> v, url |-> u]
OptExprs ==
  {[k |-> "none"], O(0, 0, "", ""), O(4, 0, "", ""), O(0, 1, "1.0.0", ""), O(4, 2, "", "http://a"), O(3, 0, "2.0.0", "http://b"), O(5, 0, "", "")}
  \cup {[k |-> "merge", a |-> a, b |-> b, form |-> f] :
          a \in {O(3, 0, "1.0.0", "http://a"), O(0, 2, "", "")}, b \in {O(5, 0, "", ""), O(0, 1, "3.0.0", ""), [k |-> "none"]}, f \in BOOLEAN}
D(ks, ls) == [t |-> "dict", k |-> ks, l |-> ls]
OkAns(r, deps) == [ret |-> r, failures |-> <<>>, err |-> "", rdeps |-> deps]
Answers ==
  {OkAns(D(<<>>, <<>>), <<>>), OkAns(D(<<"a">>, <<Str("p")>>), <<<<"a", <<"z1">>>>>>),
   OkAns(D(<<"a", "b">>, <<Sec(Str("S3")), Str("p")>>), <<<<"b", <<"z1", "z2">>>>>>),
   OkAns(D(<<"a">>, <<D(<<"x_y">>, <<Sec(Str("S3"))>>)>>), <<>>), OkAns(D(<<"a", "b">>, <<UnkV, Str("p")>>), <<>>),
   OkAns(D(<<"a">>, <<[t |-> "list", l |-> <<NullV, UnkV>>]>>), <<<<"a", <<>>>>>>), OkAns(D(<<"a", "b">>, <<NullV, Str("q")>>), <<>>),
   [ret |-> D(<<>>, <<>>), failures |-> <<<<"a", "why0">>, <<"b", "also0">>>>, err |-> "", rdeps |-> <<>>],
   [ret |-> D(<<>>, <<>>), failures |-> <<>>, err |-> "broke0", rdeps |-> <<>>]}
TheArgs(e) == [e |-> "dict", k |-> <<"ab_cd">>, l |-> <<e>>, form |-> FALSE]

Facts(kind, tpkg, pkg, par, prov, provs, v, u, id) ==
  [kind |-> kind, tpkg |-> tpkg, pkg |-> pkg, par |-> par, prov |-> prov, provs |-> provs, version |-> v, url |-> u, id |-> id, fail |-> FALSE]
Ps(dry) == <<Facts("prov", "pulumi", "pk", 0, 0, <<>>, "", "", "p1-id"), Facts("prov", "pulumi", "pk2", 0, 0, <<>>, "", "", IF dry THEN "" ELSE "p2-id"),
             Facts("comp", "pk", "pk", 0, 0, <<2>>, "", "", "c0-id"), Facts("cust", "pk", "pk", 3, 0, <<>>, "1.0.0", "", "r1-id"),
             Facts("cust", "pk", "pk", 0, 1, <<>>, "", "http://u", IF dry THEN "" ELSE "r2-id")>>
Bag == D(<<>>, <<>>)
Res(p, i) == [r |-> ToString(i), urn |-> "urn:" \o ToString(i), rpc |-> "register", id |-> Str(p.id), custom |-> p.kind # "comp", sent |-> p.kind # "comp",
              ins |-> Bag, outs |-> Bag, deps |-> <<>>, tr |-> <<>>, under |-> IF i = 3 THEN <<"4">> ELSE <<>>]
Ctx(dry, sec, outv) == [dry |-> dry, sec |-> sec, ref |-> TRUE, outv |-> outv, res |-> [i \in 1 .. 5 |-> Res(Ps(dry)[i], i)], tr |-> <<>>,
                        internal |-> <<>>, noref |-> FALSE, ps |-> Ps(dry)]

VARIABLES x, stage
vars == <<x, stage>>
Call0 == [kind |-> "invoke", tok |-> "pk:m:f0", pkg |-> "pk", args |-> TheArgs(S("p")), o |-> [k |-> "none"], self |-> 0, ans |-> OkAns(Bag, <<>>), at |-> 0]
Emit(y) == PrintT("@@" \o ToJson(y))
Init == x = Call0 /\ stage = 0
Next ==
  /\ stage' = stage + 1
  /\ \/ stage = 0 /\ \E a \in ArgExprs : x' = [x EXCEPT !.args = TheArgs(a)]
     \/ stage = 1 /\ \/ \E o \in OptExprs, pkg \in {"pk", "pk2"} : x' = [x EXCEPT !.o = o, !.pkg = pkg, !.tok = pkg \o ":m:f0"]
                     \/ \E s \in {0, 3, 4, 5} : x' = [x EXCEPT !.kind = "call", !.self = s]
     \/ stage = 2 /\ \E a \in Answers, at \in {0, 4} : x' = [x EXCEPT !.ans = a, !.at = at] /\ Emit(x')
Spec == Init /\ [][Next]_vars

RECURSIVE Visible(_)
Visible(v) ==
  CASE v.t = "str" -> {v.s}
    [] v.t \in {"list", "dict"} -> UNION {Visible(v.l[i]) : i \in DOMAIN v.l}
    [] v.t = "outv" -> IF v.secret THEN {} ELSE Visible(v.v)
    [] OTHER -> {}

Theorems(c, y) ==
  LET a == Args(c, y) cs == <<y>> q == CallQ(c, cs, y) e == y.args.l[1]
  IN {<<"SecretArgumentsMarked", c.sec => Visible(a.w) \cap {"S1", "S2"} = {}>>,
      <<"UnknownArgumentsUnknown", c.dry => "U1" \notin Visible(a.w)>>,
      <<"FailedArgumentsNotSent", (e.e = "leaf" /\ Opt(e, "fail")) => ~Sends(c, cs, y)>>,
      \* secrets of an answer stay secrets
      <<"ResultSecret", (y.kind = "call" /\ ~q.fail /\ "S3" \in Visible(q.v)) => q.s>>,
      <<"InvokeSecret", y.kind = "invoke" => "S3" \notin Visible(Result(c, y))>>,
      <<"ResultUnknown", (y.kind = "call" /\ ~q.fail /\ c.dry /\ HasUnk(y.ans.ret)) => ~q.k>>,
      \* an explicit provider wins; without one, and without anything above that has one, there is none
      <<"ExplicitProvider", (y.kind = "invoke" /\ NormO(cs, y.o).prov # 0) => ProvOf(c, cs, y) = NormO(cs, y.o).prov>>,
      <<"ProviderOfPackage", (y.kind = "invoke" /\ NormO(cs, y.o).prov = 0 /\ ProvOf(c, cs, y) # 0) => c.ps[ProvOf(c, cs, y)].pkg = y.pkg>>}
Guarantees ==
  \A dry \in BOOLEAN, sec \in BOOLEAN, outv \in BOOLEAN :
    LET c == Ctx(dry, sec, outv)
        bad == {t[1] : t \in {t \in Theorems(c, x) : ~t[2]}}
    IN IF bad = {} THEN TRUE ELSE PrintT(<<"broken", bad, c, x>>) /\ FALSE
=============================================================================
