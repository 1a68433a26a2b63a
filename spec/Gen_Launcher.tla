--------------------------- MODULE Gen_Launcher ---------------------------
(***************************************************************************)
(* Small programs for the launcher; the guarantees of C30 hold of what the *)
(* specification makes of them.                                            *)
(***************************************************************************)
EXTENDS Launcher, Json
CONSTANTS Show, N
A(a, n, v, s) == [a |-> a, n |-> n, v |-> v, s |-> s]
Alphabet == {A("read", "", "", FALSE), A("set", "a:k", "2", FALSE), A("res", "r", "1", TRUE), A("late", "t", "1", FALSE), A("export", "o", "1", FALSE), A("log", "", "hello", FALSE),
             A("callback", "", "in a callback", FALSE), A("raise", "RunError", "boom", FALSE), A("raise", "ValueError", "boom", FALSE), A("raise", "Exception", "", FALSE)}
            \cup {A("exit", "", v, FALSE) : v \in {"", "0", "1", "7", "32", "stop here"}}
Keys == <<"a:k", "a:s", "b:k">>
E(p, s, o, d, c, x, m, r) == [project |-> p, stack |-> s, org |-> o, dry |-> d, cfg |-> c, sec |-> x, marks |-> m, refuse |-> r, keys |-> Keys, slow |-> 0]
Envs == {E("a", "dev", "", TRUE, <<>>, <<>>, TRUE, <<>>), E("a", "prod", "org", FALSE, << <<"a:k", "1">> >>, <<"a:k">>, TRUE, <<>>),
         E("b", "dev", "me", FALSE, << <<"a:k", "x">>, <<"b:k", "">> >>, <<"b:k">>, FALSE, <<"r">>)}
VARIABLES prog, e, kind
Init == prog = <<>> /\ e \in Envs /\ kind \in {"ok", "missing", "syntax"}
Fresh(p) == {a \in Alphabet : a.a \in {"res", "late"} => a \notin RangeS(p)}
Next == /\ kind = "ok" /\ Len(prog) < N /\ \E a \in Fresh(prog) : prog' = Append(prog, a)
        /\ UNCHANGED <<e, kind>>
Spec == Init /\ [][Next]_<<prog, e, kind>>
P == Append(prog, A("read", "", "", FALSE))
Shown == IF Show THEN PrintT("@@" \o ToJson([e |-> e, prog |-> P, kind |-> kind])) ELSE TRUE
Guarantees ==
  LET r == LRun(e, P, kind)
      ends == {i \in DOMAIN P : P[i].a \in {"exit", "raise"}}
  IN \* success means that all of the program that was to run did, and nothing failed
     /\ (("0" \in Codes(r)) = (r.errs = {}))
     /\ ("0" \in Codes(r) => kind = "ok" /\ \A i \in DOMAIN P : (P[i].a = "callback" => \E j \in ends : j < i) /\ (P[i].a = "raise" => \E j \in ends : j < i))
     \* whatever follows the end of a program does not matter
     /\ (ends # {} => LRun(e, SubSeq(P, 1, CHOOSE i \in ends : \A j \in ends : i <= j), kind) = r)
     \* the user is told by the program unless it left by an exit code
     /\ \A x \in r.errs : Code(x) = "32" /\ ~Told(x) => x[2] = "32"
Inv == Guarantees /\ Shown
===========================================================================
