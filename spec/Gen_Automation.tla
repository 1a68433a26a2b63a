-------------------------- MODULE Gen_Automation --------------------------
(***************************************************************************)
(* Every operation with every few of its arguments, as a process that runs *)
(* the CLI and may fail at each step; every few failure texts. C24's       *)
(* guarantees hold of each, and each is run for real.                      *)
(***************************************************************************)
EXTENDS Automation, Json
CONSTANTS NArgs, NFrag
VARIABLES o, pc, made, got, frag

NoFrag == [err |-> <<>>, out |-> <<>>]
TextsOf(a) == CASE a \in {"target", "replace", "policy_packs", "policy_pack_configs"} -> {<<"u1">>, <<"u1", "u2">>} [] OTHER -> {<<"3">>}
ArgVals(a) == IF a \in Switches THEN {[a |-> a, v |-> <<>>, on |-> TRUE], [a |-> a, v |-> <<>>, on |-> FALSE]} ELSE {[a |-> a, v |-> v, on |-> TRUE] : v \in TextsOf(a)}
Ops == Lifecycle \cup {"cancel", "info", "export", "import", "outputs"}
Mk(op, ev, pr, sec) == [op |-> op, args |-> <<>>, events |-> ev, program |-> pr, secrets |-> sec, size |-> "", page |-> "", listens |-> TRUE]
Fragments == {"no stack named", "found", "stack 'x' already exists", "[409] Conflict: Another update is currently in progress.",
              "Build FAILED.", ": undefined:", "python inline source runtime error", "panic: runtime error", "failed with an unhandled exception"}
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))

Init ==
  \/ /\ o \in {Mk(op, ev, pr, sec) : op \in Ops, ev \in BOOLEAN, pr \in BOOLEAN, sec \in BOOLEAN}
     /\ (o.op \notin Lifecycle => ~o.events)
     /\ pc = "args" /\ made = <<>> /\ got = "none" /\ frag = NoFrag
  \/ /\ o = Mk("cancel", FALSE, FALSE, TRUE) /\ pc = "frag" /\ made = <<>> /\ got = "none" /\ frag = NoFrag

AddArg == /\ pc = "args" /\ Len(o.args) < NArgs
          /\ \E a \in ArgsOf(o.op) : (\A i \in DOMAIN o.args : o.args[i].a # a)
                 /\ (o.args # <<>> => TRUE) /\ \E v \in ArgVals(a) : o' = [o EXCEPT !.args = Append(@, v)]
          /\ UNCHANGED <<pc, made, got, frag>>
AddFrag == /\ pc = "frag" /\ Len(frag.err) + Len(frag.out) < NFrag
           /\ \E f \in Fragments, sep \in {" ", "\n"}, w \in {"err", "out"} : frag' = [frag EXCEPT ![w] = Append(@, f \o sep)]
           /\ UNCHANGED <<o, pc, made, got>>
\* running it: the operation's own invocation, then the others in some order; any of them may fail
Start == pc = "args" /\ pc' = "main" /\ UNCHANGED <<o, made, got, frag>>
First == IF o.op = "outputs" THEN Masked("s") ELSE Main(o, "s")
RunMain == /\ pc = "main"
           /\ \E ok \in BOOLEAN : /\ made' = <<First>>
                                  /\ pc' = IF ok THEN "later" ELSE "over"
                                  /\ got' = IF ok THEN "none" ELSE "error"
           /\ UNCHANGED <<o, frag>>
RunLater == /\ pc = "later"
            /\ LET todo == Later(o, "s") IN
               IF Len(made) - 1 = Len(todo) THEN pc' = "over" /\ got' = "ok" /\ UNCHANGED made
               ELSE \E ok \in BOOLEAN : /\ made' = Append(made, todo[Len(made)])
                                        /\ pc' = IF ok THEN "later" ELSE "over"
                                        /\ got' = IF ok THEN "none" ELSE "error"
            /\ UNCHANGED <<o, frag>>
Next == AddArg \/ AddFrag \/ Start \/ RunMain \/ RunLater
vars == <<o, pc, made, got, frag>>
Spec == Init /\ [][Next]_vars

FlagNames(c) == {c.fl[i][1] : i \in DOMAIN c.fl}
Own == {"yes", "skip-preview", "exec-kind", "stack", "non-interactive", "event-log", "client"}
Guarantees ==
  LET m == Main(o, "s")
      args == /\ \A i \in DOMAIN o.args : LET a == o.args[i] IN
                   IF a.a \in Switches THEN Len(Uses(m.fl, FlagOf(o.op, a.a))) = (IF a.on THEN 1 ELSE 0)
                   ELSE Uses(m.fl, FlagOf(o.op, a.a)) = [j \in DOMAIN a.v |-> <<FlagOf(o.op, a.a), a.v[j]>>]
              /\ o.op \in Lifecycle => FlagNames(m) \subseteq Own \cup {FlagOf(o.op, o.args[i].a) : i \in DOMAIN o.args}
              /\ Uses(m.fl, "stack") = <<<<"stack", "s">>>> /\ Len(Uses(m.fl, "non-interactive")) = 1
              \* distinct arguments never share a flag
              /\ \A a, b \in ArgsOf(o.op) : a # b => FlagOf(o.op, a) # FlagOf(o.op, b)
      runs == got = "ok" => SameCalls(SubSeq(made, 2, Len(made)), Later(o, "s"))
      e == ErrOf(Join(frag.err), Heard(Join(frag.out)))
      errs == /\ (frag = NoFrag => e = "CommandError")
              \* what is told on the one stream is never taken for what is told on the other
              /\ (e \in {"StackNotFoundError", "StackAlreadyExistsError", "ConcurrentUpdateError"} => frag.err # <<>>)
              /\ (e \in {"CompilationError", "InlineSourceRuntimeError", "RuntimeError"} => frag.out # <<>>)
              /\ (frag.out = <<>> => e \in {"StackNotFoundError", "StackAlreadyExistsError", "ConcurrentUpdateError", "CommandError"})
              \* nothing that was said is forgotten
              /\ (\E i \in DOMAIN frag.err : Has(frag.err[i], "already exists")) => e \in {"StackNotFoundError", "StackAlreadyExistsError"}
      out == IF pc = "over" /\ (o.args # <<>> \/ o.op \notin Lifecycle) /\ Len(o.args) < 2 THEN [k |-> "op", o |-> o, n |-> Len(made), got |-> got]
             ELSE IF pc = "main" /\ Len(o.args) >= 2 THEN [k |-> "op", o |-> o, n |-> 9, got |-> "ok"]
             ELSE IF pc = "frag" THEN [k |-> "text", err |-> Join(frag.err), out |-> Join(frag.out)] ELSE [k |-> "none"]
  IN args /\ runs /\ errs /\ (IF out.k = "none" THEN TRUE ELSE PrintT("@@" \o ToJson(out)))
=============================================================================
