---------------------------- MODULE Gen_Exports ----------------------------
(***************************************************************************)
(* Every sequence of at most two exports over an alphabet of things        *)
(* (values, outputs, resources, objects that share parts and contain       *)
(* themselves), and every read of a stack reference over its answers:      *)
(* checks what C17 and C18 promise on the meanings of Exports.tla, and     *)
(* emits them, to be done with the SDK.                                    *)
(* Strings S1, S2: only in secrets.  U1: only in unknowns.  S3: private.   *)
(***************************************************************************)
EXTENDS Exports, Json

S(s) == [e |-> "str", s |-> s]
L(id, v, known, secret, deps) == [e |-> "leaf", id |-> id, v |-> v, known |-> known, secret |-> secret, deps |-> deps, now |-> FALSE]
Sh(i) == [e |-> "sh", i |-> i]
Lst(xs) == [e |-> "list", l |-> xs, form |-> FALSE]
Dct(ks, xs) == [e |-> "dict", k |-> ks, l |-> xs, form |-> FALSE]
Shared == <<[e |-> "list", l |-> <<S("p"), Sh(1), Sh(3)>>],
            [e |-> "dict", k |-> <<"a", "b", "_hid">>, l |-> <<Sh(1), Sh(3), S("S3")>>],
            [e |-> "obj", v |-> Lst(<<Sh(2), [e |-> "res", r |-> 1]>>)]>>
Bag == [t |-> "dict", k |-> <<>>, l |-> <<>>]
Exports0 ==
  {S("p"), [e |-> "null"], Lst(<<>>), L("l1", S("S1"), TRUE, TRUE, <<1>>), L("l2", S("U1"), FALSE, FALSE, <<1>>), L("l3", S("U1"), FALSE, TRUE, <<>>),
   [e |-> "out", r |-> 1, p |-> "p"], [e |-> "out", r |-> 2, p |-> "urn"], [e |-> "res", r |-> 1], [e |-> "res", r |-> 2], [e |-> "obj", v |-> L("l4", S("S2"), TRUE, TRUE, <<>>)],
   Dct(<<"_hid", "x_y">>, <<S("S3"), L("l5", S("p"), TRUE, FALSE, <<1>>)>>), [e |-> "aw", id |-> "a1", now |-> FALSE, v |-> [e |-> "secret", v |-> S("S1")]],
   Sh(1), Sh(2), Sh(3), L("l6", Sh(2), TRUE, FALSE, <<>>), L("l7", Sh(1), TRUE, TRUE, <<>>),
   [e |-> "leaf", id |-> "l8", known |-> TRUE, secret |-> FALSE, deps |-> <<>>, fail |-> TRUE, now |-> FALSE],
   L("l9", Dct(<<"_hid", "a">>, <<S("S3"), [e |-> "res", r |-> 2]>>), TRUE, FALSE, <<>>)}
D(ks, ls) == [t |-> "dict", k |-> ks, l |-> ls]
\* outputs of the referenced stack, next to which of them are secret
RefAnswers ==
  {D(<<"outputs">>, <<D(<<>>, <<>>)>>)}
  \cup {D(<<"outputs", "secretOutputNames">>, <<D(<<"mix", "pub", "sec">>, <<Str("p"), Str("p"), Str("q")>>), [t |-> "list", l |-> ns]>>) :
          ns \in {<<>>, <<Str("sec")>>, <<Str("mix"), Str("sec")>>}}
  \cup {D(<<"outputs">>, <<D(<<"pub", "sec">>, <<Str("p"), Sec(Str("q"))>>)>>), D(<<"outputs">>, <<D(<<"pub">>, <<Str("p")>>)>>),
        D(<<"outputs", "secretOutputNames">>, <<D(<<"pub", "sec">>, <<Str("p"), Sec(Str("q"))>>), NullV>>)}
DryRefAnswers ==
  {D(<<"outputs", "secretOutputNames">>, <<UnkV, UnkV>>), D(<<"outputs", "secretOutputNames">>, <<D(<<"pub">>, <<UnkV>>), [t |-> "list", l |-> <<Str("pub")>>]>>),
   D(<<"outputs", "secretOutputNames">>, <<Sec(D(<<"pub">>, <<Str("p")>>)), UnkV>>), D(<<"outputs", "secretOutputNames">>, <<UnkV, [t |-> "list", l |-> <<Str("sec")>>]>>)}
RefNames == {S("pub"), S("sec"), S("mix"), L("n1", S("sec"), TRUE, FALSE, <<1>>), L("n2", S("sec"), FALSE, FALSE, <<1>>), L("n3", S("pub"), TRUE, TRUE, <<2>>)}

Res(i, custom, rpc, outs, ins) == [r |-> ToString(i), urn |-> "urn:" \o ToString(i), rpc |-> rpc, id |-> Str("id" \o ToString(i)), custom |-> custom, sent |-> custom,
                                   ins |-> ins, outs |-> outs, deps |-> <<>>, under |-> <<>>,
                                   tr |-> IF i = 3 THEN <<<<"secret_output_names", "secretOutputNames">>>> ELSE <<>>]
Out(r, p) == [e |-> "out", r |-> r, p |-> p]
Members == <<<<<<"urn", Out(1, "urn")>>, <<"id", Out(1, "id")>>, <<"p", Out(1, "p")>>>>,
             <<<<"urn", Out(2, "urn")>>, <<"id", [e |-> "null"]>>, <<"peer", [e |-> "res", r |-> 1]>>, <<"_priv", S("S3")>>,
               <<"data", Lst(<<[e |-> "res", r |-> 2], Sh(1)>>)>>>>,
             <<<<"urn", Out(3, "urn")>>, <<"id", Out(3, "id")>>>>>>
Ctx(dry, sec, ref, ans) ==
  [dry |-> dry, sec |-> sec, ref |-> ref, outv |-> FALSE, tr |-> <<>>, internal |-> <<>>, shared |-> Shared, members |-> Members,
   res |-> <<Res(1, TRUE, "register", D(<<"p">>, <<Sec(Str("S1"))>>), Bag), Res(2, FALSE, "register", Bag, Bag), Res(3, TRUE, "read", ans, D(<<"name">>, <<Str("x")>>))>>]

VARIABLES x, stage
vars == <<x, stage>>
Emit(y) == PrintT("@@" \o ToJson(y))
Item0 == [exports |-> <<>>, ans |-> Bag, dry |-> FALSE, get |-> <<>>, required |-> FALSE]
Init == x = Item0 /\ stage = "start"
Next ==
  \/ /\ stage \in {"start", "one"}
     /\ \E n \in {"a", "b", "_h"}, e \in Exports0 : x' = [x EXCEPT !.exports = Append(@, <<n, e>>)] /\ (IF stage = "one" \/ n = "a" THEN Emit(x') ELSE TRUE)
     /\ stage' = IF stage = "start" THEN "one" ELSE "done"
  \/ /\ stage = "start" /\ stage' = "ref"
     /\ \E dry \in BOOLEAN : \E a \in RefAnswers \cup (IF dry THEN DryRefAnswers ELSE {}) : x' = [x EXCEPT !.dry = dry, !.ans = a]
  \/ /\ stage = "ref" /\ stage' = "done"
     /\ \E e \in RefNames, r \in BOOLEAN : (x.dry \/ Opt(e, "known") \/ e.e = "str") /\ x' = [x EXCEPT !.get = <<e>>, !.required = r] /\ Emit(x')
Spec == Init /\ [][Next]_vars

RECURSIVE Strs(_)
Strs(w) == CASE w.t = "str" -> {w.s} [] w.t \in {"list", "dict"} -> UNION {Strs(w.l[i]) : i \in DOMAIN w.l} [] w.t = "outv" -> IF w.secret THEN {} ELSE Strs(w.v)
             [] OTHER -> {}
RECURSIVE AllStrs(_)
AllStrs(w) == CASE w.t = "str" -> {w.s} [] w.t \in {"list", "dict"} -> UNION {AllStrs(w.l[i]) : i \in DOMAIN w.l} [] w.t = "sec" -> AllStrs(w.v) [] OTHER -> {}
ExportTheorems(c, y) ==
  LET w == ExportsWire(c, y.exports)
      n == Len(y.exports)
      twice == ExportsWire(c, <<<<"t", Lst(<<y.exports[n][2], y.exports[n][2]>>)>>>>)
      alone == ExportsWire(c, <<<<"t", y.exports[n][2]>>>>)
  IN {<<"SecretsStaySecret", ~w.fail /\ c.sec => Strs(w.w) \cap {"S1", "S2"} = {}>>,
      <<"PrivateNotSent", ~w.fail => "S3" \notin AllStrs(w.w)>>,
      <<"UnknownStaysUnknown", ~w.fail /\ c.dry => "U1" \notin AllStrs(w.w)>>,
      <<"LastWins", (n = 2 /\ y.exports[1][1] = y.exports[2][1]) => w = ExportsWire(c, <<y.exports[2]>>)>>,
      \* what is exported does not depend on what else is
      <<"TwiceTheSame", n = 1 /\ ~alone.fail => Eq(twice.w.l[1].l[1], twice.w.l[1].l[2]) /\ Eq(twice.w.l[1].l[1], alone.w.l[1])>>,
      <<"Failure", w.fail = \E i \in 1 .. n : y.exports[i][1] # "_h" /\ Opt(y.exports[i][2], "fail") /\ ~(\E j \in (i + 1) .. n : y.exports[j][1] = y.exports[i][1])>>}
RefTheorems(c, y) ==
  LET q == RefGet(c, c.res[3], y.get[1], y.required)
      names == RefSecretNames(c, c.res[3])
      nm == FromInput(c, y.get[1])
      all == RefOutputs(c, c.res[3])
      there == all.v.t = "dict" /\ nm.v.t = "str" /\ HasKey(all.v, nm.v.s)
  IN {<<"SecretKept", ~q.fail /\ nm.k /\ names.k /\ names.v.t = "list" => q.s = (\E i \in DOMAIN names.v.l : names.v.l[i] = nm.v)>>,
      <<"SecretIfUnsure", ~q.fail /\ ~(names.k /\ names.v.t = "list" /\ nm.k) => q.s = all.s>>,
      <<"Value", (~q.fail /\ q.k /\ there) => Eq(q.v, all.v.l[Lookup(all.v, nm.v.s)])>>,
      <<"Absent", (nm.k /\ all.k /\ ~there) => IF y.required THEN q.fail ELSE ~q.fail /\ q.v.t = "null">>,
      <<"UnknownKept", ~(nm.k /\ all.k) => ~q.fail /\ ~q.k>>}
Guarantees ==
  \A dry \in (IF x.get = <<>> THEN BOOLEAN ELSE {x.dry}), sec \in IF Len(x.exports) = 2 THEN {TRUE} ELSE BOOLEAN,
     ref \in IF Len(x.exports) = 2 THEN {TRUE} ELSE BOOLEAN :
    LET c == Ctx(dry, sec, ref, x.ans)
        ts == IF x.exports # <<>> THEN ExportTheorems(c, x) ELSE IF x.get # <<>> THEN RefTheorems(c, x) ELSE {}
        bad == {t[1] : t \in {t \in ts : ~t[2]}}
    IN IF bad = {} THEN TRUE ELSE PrintT(<<"broken", bad, dry, sec, ref, x>>) /\ FALSE
=============================================================================
