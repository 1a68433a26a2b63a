------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Packages and modules that SDKs register, so that references to          *)
(* resources can be rebuilt (C22).                                         *)
(*                                                                         *)
(* A version is [n |-> <<major, minor, patch>>, pre |-> rank] or NoV; pre  *)
(* ranks what comes before a release, which itself has the highest rank.   *)
(***************************************************************************)
EXTENDS Values
NoV == [n |-> <<>>, pre |-> 0]
IsV(v) == v.n # <<>>
SameV(a, b) == ~IsV(a) \/ ~IsV(b) \/ a = b
Less(a, b) ==
  \/ a.n[1] < b.n[1]
  \/ a.n[1] = b.n[1] /\ a.n[2] < b.n[2]
  \/ a.n[1] = b.n[1] /\ a.n[2] = b.n[2] /\ a.n[3] < b.n[3]
  \/ a.n = b.n /\ a.pre < b.pre
\* what was asked for is there: of the same major version, and no older in the parts of its number
Fits(want, have) ==
  \/ ~IsV(want) \/ ~IsV(have)
  \/ have.n[1] = want.n[1] /\ have.n[2] >= want.n[2] /\ have.n[3] >= want.n[3]

\* regs: what is registered, a sequence of [kind, key, v]; a second one of the same version is refused
Accepts(regs, x) == \A i \in DOMAIN regs : ~(regs[i].kind = x.kind /\ regs[i].key = x.key /\ SameV(regs[i].v, x.v))
Candidates(regs, kind, key, want) == {i \in DOMAIN regs : regs[i].kind = kind /\ regs[i].key = key /\ Fits(want, regs[i].v)}
Best(regs, kind, key, want) ==
  LET cs == Candidates(regs, kind, key, want)
  IN IF cs = {} THEN 0 ELSE CHOOSE i \in cs : \A j \in cs \ {i} : Less(regs[j].v, regs[i].v)

\* a reference: ref = [kind, key, want, urn, name, type, id]
Resolve(regs, ref, keep) ==
  LET b == Best(regs, ref.kind, ref.key, ref.want)
  IN IF b # 0 THEN [t |-> "made", by |-> regs[b].no, name |-> ref.name, type |-> ref.type, urn |-> ref.urn]
     ELSE IF ref.id.t = "none" THEN Str(ref.urn)
     ELSE IF ref.id = Str("") THEN (IF keep THEN UnkV ELSE NullV)
     ELSE Deser(ref.id, keep, {})

\* a value made of references (by their numbers), as it is decoded
RECURSIVE Decode(_, _, _, _)
Decode(regs, refs, w, keep) ==
  CASE w.t = "refno" -> Resolve(regs, refs[w.n], keep)
    [] w.t = "list" -> PushList([i \in 1 .. Len(w.l) |-> Decode(regs, refs, w.l[i], keep)])
    [] w.t = "dict" -> LET vs == [i \in 1 .. Len(w.l) |-> Decode(regs, refs, w.l[i], keep)]
                           ix == SelectSeq([i \in 1 .. Len(w.l) |-> i], LAMBDA i : vs[i].t # "null")
                       IN PushDict([t |-> "dict", k |-> [j \in DOMAIN ix |-> w.k[ix[j]]], l |-> [j \in DOMAIN ix |-> vs[ix[j]]]])
    [] w.t = "sec" -> LET v == Decode(regs, refs, w.v, keep) IN IF IsSec(v) THEN v ELSE Sec(v)
    [] OTHER -> Deser(w, keep, {})
=============================================================================
