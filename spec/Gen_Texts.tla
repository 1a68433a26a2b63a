------------------------------ MODULE Gen_Texts -----------------------------
(***************************************************************************)
(* Every short text over an alphabet, with what each conversion makes of   *)
(* it.  Writing a number down and reading it back gives it again, and what *)
(* is accepted as an integer or as a JSON number is accepted as a float of *)
(* the same value.                                                         *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS NT
VARIABLES s
Alphabet == {"0", "1", "7", "-", "+", ".", "e", "_", " "}
Init == s = ""
Next == Len(s) < NT /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_s
Same0(a, b) == a.num.d = b.num.d /\ a.num.e = b.num.e /\ (a.num.d # "" => a.num.neg = b.num.neg)
Guarantees ==
  LET i == Convert("int", s, <<>>, "k")
      f == Convert("float", s, <<>>, "k")
      o == Convert("object", s, <<>>, "k")
      ok == /\ i.t = "ok" => (f.t = "ok" /\ Same0(i.v, f.v))
            /\ o.t = "ok" => (f.t = "ok" /\ Same0(o.v, f.v))
            /\ (o.t = "ok" /\ o.v.t = "int") => i.t = "ok"
            /\ i.t = "ok" => Convert("int", s \o " ", <<>>, "k") = i
            /\ \A c \in {"x", "é", "__", "--"} : Convert("int", s \o c, <<>>, "k").t = "wrong" /\ Convert("float", s \o c, <<>>, "k").t = "wrong"
  IN ok /\ PrintT("@@" \o ToJson(s))
=============================================================================
