------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration of a run (C19): where values come from, and how a     *)
(* lookup converts and protects them.                                      *)
(*                                                                         *)
(* cfg = [set, secret, env, bag, project]: what was set (pairs of key and  *)
(* text, the last one counts), which keys are secret, environment          *)
(* variables, and what PULUMI_CONFIG holds.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range0(s) == {s[i] : i \in DOMAIN s}
Char(s, i) == SubSeq(s, i, i)
IndexIn(s, c) == IF \E i \in 1 .. Len(s) : Char(s, i) = c THEN CHOOSE i \in 1 .. Len(s) : Char(s, i) = c ELSE 0
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
IsDigit(c) == IndexIn(Digits, c) # 0
From(s, i) == SubSeq(s, i, Len(s))

(***************************************************************************)
(* Sources                                                                 *)
(***************************************************************************)
RECURSIVE EnvName(_)
EnvName(k) ==
  IF k = "" THEN "PULUMI_CONFIG_"
  ELSE LET c == Char(k, Len(k)) r == EnvName(SubSeq(k, 1, Len(k) - 1))
       IN IF c = "_" \/ IndexIn(Upper, c) # 0 \/ IsDigit(c) THEN r \o c
          ELSE IF IndexIn(Lower, c) # 0 THEN r \o Char(Upper, IndexIn(Lower, c))
          ELSE r \o "_"
In(m, k) == \E i \in DOMAIN m : m[i].k = k
At(m, k) == m[CHOOSE i \in DOMAIN m : m[i].k = k /\ \A j \in DOMAIN m : m[j].k = k => j <= i].s
Put(m, k, s) == Append(SelectSeq(m, LAMBDA x : x.k # k), [k |-> k, s |-> s])
Del(m, k) == SelectSeq(m, LAMBDA x : x.k # k)
Full(name, key) == name \o ":" \o key
Present(c, k) == In(c.set, k) \/ In(c.env, EnvName(k)) \/ In(c.bag, k)
Text(c, k) == IF In(c.set, k) THEN At(c.set, k) ELSE IF In(c.env, EnvName(k)) THEN At(c.env, EnvName(k)) ELSE At(c.bag, k)

(***************************************************************************)
(* Conversions.  Numbers are compared by their decimal digits: a number is *)
(* 0.d1d2.. * 10^e without leading or trailing zeros among the digits.     *)
(***************************************************************************)
RECURSIVE LStrip(_, _), RStrip(_, _), Remove(_, _)
LStrip(s, cs) == IF s # "" /\ IndexIn(cs, Char(s, 1)) # 0 THEN LStrip(From(s, 2), cs) ELSE s
RStrip(s, cs) == IF s # "" /\ IndexIn(cs, Char(s, Len(s))) # 0 THEN RStrip(SubSeq(s, 1, Len(s) - 1), cs) ELSE s
Remove(s, c) == IF s = "" THEN "" ELSE (IF Char(s, 1) = c THEN "" ELSE Char(s, 1)) \o Remove(From(s, 2), c)
WS == " \t\n\r\f"
Strip(s) == LStrip(RStrip(s, WS), WS)
Find(s, cs) == LET is == {i \in 1 .. Len(s) : IndexIn(cs, Char(s, i)) # 0} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Signed(s) == s # "" /\ Char(s, 1) \in {"+", "-"}
Unsigned(s) == IF Signed(s) THEN From(s, 2) ELSE s
Neg(s) == s # "" /\ Char(s, 1) = "-"
\* digits, with single underscores between them where these are allowed
DigitPart(s, und) ==
  /\ s # "" /\ IsDigit(Char(s, 1)) /\ IsDigit(Char(s, Len(s)))
  /\ \A i \in 1 .. Len(s) : IsDigit(Char(s, i)) \/ (und /\ Char(s, i) = "_" /\ IsDigit(Char(s, i + 1)))
RECURSIVE ToInt(_)
ToInt(s) == IF s = "" THEN 0 ELSE ToInt(SubSeq(s, 1, Len(s) - 1)) * 10 + IndexIn(Digits, Char(s, Len(s))) - 1
Canon(neg, whole, frac, e) ==
  LET all == whole \o frac
      lead == Len(all) - Len(LStrip(all, "0"))
      d == RStrip(LStrip(all, "0"), "0")
  IN IF d = "" THEN [neg |-> neg, d |-> "", e |-> 0] ELSE [neg |-> neg, d |-> d, e |-> Len(whole) + e - lead]

Split(s, und) ==
  LET b == Unsigned(s)
      ei == Find(b, "eE")
      mant == IF ei = 0 THEN b ELSE SubSeq(b, 1, ei - 1)
      ex == IF ei = 0 THEN "0" ELSE From(b, ei + 1)
      di == Find(mant, ".")
  IN [whole |-> IF di = 0 THEN mant ELSE SubSeq(mant, 1, di - 1), dot |-> di # 0,
      frac |-> IF di = 0 THEN "" ELSE From(mant, di + 1), hasexp |-> ei # 0, exp |-> ex, neg |-> Neg(s)]
NumOf(p) == LET c == Unsigned(p.exp) ce == Remove(c, "_")
            IN Canon(p.neg, Remove(p.whole, "_"), Remove(p.frac, "_"), IF Neg(p.exp) THEN 0 - ToInt(ce) ELSE ToInt(ce))
IntOk(s) == DigitPart(Unsigned(Strip(s)), TRUE)
IntOf(s) == LET t == Strip(s) IN NumOf(Split(t, TRUE))
LowerOf(s) == LET RECURSIVE L(_) L(i) == IF i > Len(s) THEN "" ELSE (LET c == Char(s, i) IN IF IndexIn(Upper, c) # 0 THEN Char(Lower, IndexIn(Upper, c)) ELSE c) \o L(i + 1) IN L(1)
FloatNames == {"inf", "infinity", "nan"}
FloatOk(s) ==
  LET t == Strip(s) p == Split(t, TRUE)
  IN \/ LowerOf(Unsigned(t)) \in FloatNames
     \/ /\ p.whole # "" \/ p.frac # ""
        /\ p.whole # "" => DigitPart(p.whole, TRUE)
        /\ p.frac # "" => DigitPart(p.frac, TRUE)
        /\ DigitPart(Unsigned(p.exp), TRUE)
FloatOf(s) ==
  LET t == Strip(s) n == LowerOf(Unsigned(t))
  IN IF n = "nan" THEN [t |-> "nan"] ELSE IF n \in FloatNames THEN [t |-> "inf", neg |-> Neg(t)]
     ELSE [t |-> "float", num |-> NumOf(Split(t, TRUE))]

\* JSON.  Texts of lists and dictionaries come with what they were written from.
JsonWS == " \t\n\r"
JStrip(s) == LStrip(RStrip(s, JsonWS), JsonWS)
JNumOk(s) == LET p == Split(s, FALSE)
             IN /\ s # "" /\ Char(s, 1) # "+"
                /\ DigitPart(p.whole, FALSE) /\ (Len(p.whole) > 1 => Char(p.whole, 1) # "0")
                /\ (p.dot => DigitPart(p.frac, FALSE)) /\ DigitPart(Unsigned(p.exp), FALSE)
JInt(s) == LET p == Split(s, FALSE) IN ~p.dot /\ ~p.hasexp
JScalarOk(s) == s \in {"null", "true", "false", "NaN", "Infinity", "-Infinity"} \/ JNumOk(s)
JScalar(s) ==
  CASE s = "null" -> [t |-> "null"]
    [] s = "true" -> [t |-> "bool", b |-> TRUE]
    [] s = "false" -> [t |-> "bool", b |-> FALSE]
    [] s = "NaN" -> [t |-> "nan"]
    [] s = "Infinity" -> [t |-> "inf", neg |-> FALSE]
    [] s = "-Infinity" -> [t |-> "inf", neg |-> TRUE]
    [] OTHER -> IF JInt(s) THEN (LET n == NumOf(Split(s, FALSE)) IN [t |-> "int", num |-> IF n.d = "" THEN [n EXCEPT !.neg = FALSE] ELSE n])
                ELSE [t |-> "float", num |-> NumOf(Split(s, FALSE))]
RECURSIVE Render(_, _), Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(SubSeq(ss, 2, Len(ss)), sep)
Render(j, sp) ==
  CASE j.t = "str" -> "\"" \o j.s \o "\""
    [] j.t = "lit" -> j.s
    [] j.t = "list" -> "[" \o sp \o Joined([i \in DOMAIN j.l |-> Render(j.l[i], sp)], sp \o "," \o sp) \o sp \o "]"
    [] j.t = "dict" -> "{" \o sp \o Joined([i \in DOMAIN j.l |-> "\"" \o j.k[i] \o "\"" \o sp \o ":" \o sp \o Render(j.l[i], sp)], sp \o "," \o sp) \o sp \o "}"
RECURSIVE JValue(_)
JValue(j) ==
  CASE j.t = "str" -> j
    [] j.t = "lit" -> JScalar(j.s)
    [] j.t = "list" -> [t |-> "list", l |-> [i \in DOMAIN j.l |-> JValue(j.l[i])]]
    [] j.t = "dict" -> LET ks == Range0(j.k)
                           \* the last of equal keys counts
                           lasts == SelectSeq([i \in DOMAIN j.k |-> i], LAMBDA i : \A m \in DOMAIN j.k : j.k[m] = j.k[i] => m <= i)
                       IN [t |-> "dict", k |-> [i \in DOMAIN lasts |-> j.k[lasts[i]]], l |-> [i \in DOMAIN lasts |-> JValue(j.l[lasts[i]])]]

(***************************************************************************)
(* Lookups: q = [name, key, kind, need, secret, def, asts].  asts pairs    *)
(* JSON texts with what they mean.                                         *)
(***************************************************************************)
Ok(v) == [t |-> "ok", v |-> v]
Wrong(k) == [t |-> "wrong", key |-> k]
Missing(k) == [t |-> "missing", key |-> k]
Absent == [t |-> "absent"]
Convert(kind, s, asts, k) ==
  CASE kind = "str" -> Ok([t |-> "str", s |-> s])
    [] kind = "bool" -> IF s \in {"true", "True"} THEN Ok([t |-> "bool", b |-> TRUE]) ELSE IF s \in {"false", "False"} THEN Ok([t |-> "bool", b |-> FALSE]) ELSE Wrong(k)
    [] kind = "int" -> IF IntOk(s) THEN (LET n == IntOf(s) IN Ok([t |-> "int", num |-> IF n.d = "" THEN [n EXCEPT !.neg = FALSE] ELSE n])) ELSE Wrong(k)
    [] kind = "float" -> IF FloatOk(s) THEN Ok(FloatOf(s)) ELSE Wrong(k)
    [] kind = "object" ->
         IF \E i \in DOMAIN asts : asts[i].s = s THEN Ok(JValue(asts[CHOOSE i \in DOMAIN asts : asts[i].s = s].j))
         ELSE IF JScalarOk(JStrip(s)) THEN Ok(JScalar(JStrip(s))) ELSE Wrong(k)
\* which bag a Config object stands for
BagName(c, name) == IF name = "" THEN c.project ELSE name
Look(c, q) ==
  LET k == Full(BagName(c, q.name), q.key)
  IN IF Present(c, k) THEN Convert(q.kind, Text(c, k), q.asts, k)
     ELSE IF q.need THEN Missing(k)
     ELSE Ok(q.def)

\* changes
SetOne(c, k, s) == [c EXCEPT !.set = Put(c.set, k, s)]
SetAll(c, m, sk) == [c EXCEPT !.set = m, !.secret = IF sk.given THEN Range0(sk.keys) ELSE c.secret]
SetEnv(c, n, s) == [c EXCEPT !.env = Put(c.env, n, s)]
DelEnv(c, n) == [c EXCEPT !.env = Del(c.env, n)]
SetBag(c, m) == [c EXCEPT !.bag = m]
Change(c, o) ==
  CASE o.op = "set" -> SetOne(c, o.k, o.s)
    [] o.op = "setall" -> SetAll(c, o.m, o.sk)
    [] o.op = "env" -> SetEnv(c, o.k, o.s)
    [] o.op = "delenv" -> DelEnv(c, o.k)
    [] o.op = "bag" -> SetBag(c, o.m)
=============================================================================
