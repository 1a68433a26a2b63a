------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Typed data.  A schema c has classes (records of fields, each with a     *)
(* Python name, a wire name and a type), enumerations, and two tables for  *)
(* the keys of dictionaries that have no type: inkeys (program to wire)    *)
(* and keys (wire to program).                                             *)
(*   Build  what a wire value is rebuilt as where a type is declared       *)
(*   Fits   which wire values are accepted there                           *)
(*   Enc    what an input is sent as where a type is declared              *)
(*   From   what Output.from_input makes of an input                       *)
(* Types are records tagged by ty: str int float bool any union enum list  *)
(* dict obj.  (union: one of several leaf types)                           *)
(* Program numbers are int or flt, wire numbers are num, all with their    *)
(* text.                                                                   *)
(***************************************************************************)
EXTENDS Values

AnyT == [ty |-> "any"]
ClsOf(c, n) == c.cls[CHOOSE i \in DOMAIN c.cls : c.cls[i].name = n]
EnumOf(c, n) == c.enums[CHOOSE i \in DOMAIN c.enums : c.enums[i].name = n]
FieldByWire(d, n) == {i \in DOMAIN d.fields : d.fields[i].wire = n}
FieldByPy(d, n) == {i \in DOMAIN d.fields : d.fields[i].py = n}
ElT(T) == IF T.ty \in {"list", "dict"} THEN T.el ELSE AnyT
Leaf(w) == w.t \notin {"list", "dict", "sec"}

RECURSIVE Fits(_, _, _)
Fits(c, T, w) ==
  CASE w.t = "list" -> T.ty \in {"list", "any"} /\ \A i \in DOMAIN w.l : Fits(c, ElT(T), w.l[i])
    [] w.t = "dict" /\ T.ty = "obj" ->
         LET d == ClsOf(c, T.cl)
         IN \A i \in DOMAIN w.k : LET f == FieldByWire(d, w.k[i]) IN IF f = {} THEN TRUE ELSE Fits(c, d.fields[CHOOSE j \in f : TRUE].ty, w.l[i])
    [] w.t = "dict" -> T.ty \in {"dict", "any"} /\ \A i \in DOMAIN w.l : Fits(c, ElT(T), w.l[i])
    [] w.t \in {"str", "num"} /\ T.ty = "enum" -> w \in ToSet(EnumOf(c, T.en).vals)
    [] OTHER -> TRUE

RECURSIVE Build(_, _, _)
Build(c, T, w) ==
  CASE w.t = "list" -> [t |-> "list", l |-> [i \in 1 .. Len(w.l) |-> Build(c, ElT(T), w.l[i])]]
    \* what the class does not declare is dropped
    [] w.t = "dict" /\ T.ty = "obj" ->
         LET d == ClsOf(c, T.cl)
         IN [t |-> "obj", cl |-> T.cl,
             l |-> [i \in 1 .. Len(d.fields) |->
                      IF HasKey(w, d.fields[i].wire) THEN Build(c, d.fields[i].ty, w.l[Lookup(w, d.fields[i].wire)]) ELSE NullV]]
    [] w.t = "dict" -> [t |-> "dict", k |-> [i \in 1 .. Len(w.k) |-> Tr(c.keys, w.k[i])], l |-> [i \in 1 .. Len(w.l) |-> Build(c, ElT(T), w.l[i])]]
    [] w.t \in {"str", "num"} /\ T.ty = "enum" -> [t |-> "enum", en |-> T.en, v |-> w]
    [] w.t = "num" -> IF T.ty = "int" THEN [t |-> "int", s |-> w.s] ELSE [t |-> "flt", s |-> w.s]
    [] OTHER -> w

RECURSIVE HasUnkT(_)
HasUnkT(v) ==
  CASE v.t = "unk" -> TRUE
    [] v.t \in {"list", "dict", "obj"} -> \E i \in DOMAIN v.l : HasUnkT(v.l[i])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* ---- inputs.  An object has a value per field of its class, null where it was not set.
NonNullIx(vs) == SelectSeq([i \in 1 .. Len(vs) |-> i], LAMBDA i : vs[i].t # "null")

RECURSIVE Enc(_, _, _)
Enc(c, T, v) ==
  CASE v.t = "out" -> IF ~v.known THEN UnkV ELSE IF v.secret THEN Sec(Enc(c, T, v.v)) ELSE Enc(c, T, v.v)
    [] v.t = "aw" -> Enc(c, T, v.v)
    [] v.t = "obj" ->
         LET d == ClsOf(c, v.cl) ix == NonNullIx(v.l)
         IN [t |-> "dict", k |-> [j \in 1 .. Len(ix) |-> d.fields[ix[j]].wire], l |-> [j \in 1 .. Len(ix) |-> Enc(c, d.fields[ix[j]].ty, v.l[ix[j]])]]
    [] v.t = "list" -> [t |-> "list", l |-> [i \in 1 .. Len(v.l) |-> Enc(c, ElT(T), v.l[i])]]
    \* a dictionary in the place of an object: names of its fields are translated, whichever of the two names is used
    [] v.t = "dict" /\ T.ty = "obj" ->
         LET d == ClsOf(c, T.cl)
             wire(k) == LET f == FieldByPy(d, k) IN IF f = {} THEN k ELSE d.fields[CHOOSE j \in f : TRUE].wire
             typ(k) == LET f == FieldByWire(d, wire(k)) IN IF f = {} THEN AnyT ELSE d.fields[CHOOSE j \in f : TRUE].ty
         IN [t |-> "dict", k |-> [i \in 1 .. Len(v.k) |-> wire(v.k[i])], l |-> [i \in 1 .. Len(v.l) |-> Enc(c, typ(v.k[i]), v.l[i])]]
    \* keys of dictionaries are the user's own where a type is declared
    [] v.t = "dict" -> [t |-> "dict", k |-> [i \in 1 .. Len(v.k) |-> IF T.ty = "any" THEN Tr(c.inkeys, v.k[i]) ELSE v.k[i]],
                        l |-> [i \in 1 .. Len(v.l) |-> Enc(c, ElT(T), v.l[i])]]
    [] v.t = "enum" -> v.v
    [] v.t \in {"int", "flt"} -> [t |-> "num", s |-> v.s]
    [] OTHER -> v

\* a bag of properties: those that come to null are not sent
DropNulls(w) == LET ix == NonNullIx(w.l) IN [w EXCEPT !.k = [j \in DOMAIN ix |-> w.k[ix[j]]], !.l = [j \in DOMAIN ix |-> w.l[ix[j]]]]
EncArgs(c, o) == DropNulls(Enc(c, AnyT, o))

-----------------------------------------------------------------------------
\* ---- what a declared property of a resource resolves to
\* (a preview knows nothing of what the engine does not say)
Known(v, s, dry) == [v |-> v, known |-> ~HasUnkT(v) /\ ~(dry /\ v.t = "null"), secret |-> s]
OutOf(c, f, sent, state, dry) ==
  LET st == DeserBag(state, dry, {})
      back == DeserBag(sent, dry, {})
      of(w) == Known(Build(c, f.ty, Unwrap(w)), IsSec(w), dry)
  IN IF HasKey(st, f.wire) THEN of(st.l[Lookup(st, f.wire)])
     ELSE IF ~dry /\ HasKey(back, f.wire) THEN of(back.l[Lookup(back, f.wire)])
     ELSE [v |-> NullV, known |-> ~dry, secret |-> FALSE]
\* does everything the resource is given fit what it declares?
ResFits(c, fields, sent, state, dry) ==
  LET st == DeserBag(state, dry, {})
      back == DeserBag(sent, dry, {})
  IN \A i \in DOMAIN fields :
       LET n == fields[i].wire
       IN IF HasKey(st, n) THEN Fits(c, fields[i].ty, Unwrap(st.l[Lookup(st, n)]))
          ELSE IF ~dry /\ HasKey(back, n) THEN Fits(c, fields[i].ty, Unwrap(back.l[Lookup(back, n)])) ELSE TRUE

\* ---- Output.from_input
RECURSIVE From(_)
From(v) ==
  CASE v.t = "out" -> LET q == From(v.v) IN IF v.known THEN [q EXCEPT !.secret = q.secret \/ v.secret] ELSE [v |-> NullV, known |-> FALSE, secret |-> v.secret]
    [] v.t = "aw" -> From(v.v)
    [] v.t \in {"list", "dict", "obj"} ->
         LET qs == [i \in 1 .. Len(v.l) |-> From(v.l[i])]
         IN [v |-> [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> qs[i].v]], known |-> \A i \in DOMAIN qs : qs[i].known, secret |-> \E i \in DOMAIN qs : qs[i].secret]
    [] OTHER -> [v |-> v, known |-> TRUE, secret |-> FALSE]

-----------------------------------------------------------------------------
RECURSIVE SameT(_, _)
SameT(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : SameT(a.l[i], b.l[i])
       [] a.t = "obj" -> a.cl = b.cl /\ Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : SameT(a.l[i], b.l[i])
       [] a.t = "dict" -> /\ ToSet(a.k) = ToSet(b.k) /\ Len(a.k) = Len(b.k)
                          /\ \A i \in DOMAIN a.k : SameT(a.l[i], b.l[Lookup(b, a.k[i])])
       [] a.t = "sec" -> SameT(a.v, b.v)
       [] OTHER -> a = b
=============================================================================
