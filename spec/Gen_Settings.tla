--------------------------- MODULE Gen_Settings ---------------------------
(***************************************************************************)
(* Every short history of writes by the program and by others; C25's       *)
(* guarantees hold after each.                                             *)
(***************************************************************************)
EXTENDS Settings, Json
CONSTANTS NOps
VARIABLES fs, ops, prev
T(s) == LitS("\"" \o s \o "\"")
Proj(rt, tpl, be, desc) == Obj("ProjectSettings", ProjectFields, <<T("p"), rt, NullS, desc, NullS, NullS, NullS, NullS, tpl, be>>)
Rt == Obj("ProjectRuntimeInfo", <<"name", "options">>, <<T("python"), [t |-> "dict", k |-> <<"virtualenv">>, l |-> <<T("v")>>]>>)
Tpl == Obj("ProjectTemplate", <<"description", "quickstart", "config", "important">>, <<T("d"), NullS,
         [t |-> "dict", k |-> <<"p:k">>, l |-> <<Obj("ProjectTemplateConfigValue", <<"description", "default", "secret">>, <<NullS, T("x"), LitS("true")>>)>>], LitS("true")>>)
Projects == {Proj(T("go"), NullS, NullS, NullS), Proj(Rt, Tpl, Obj("ProjectBackend", <<"url">>, <<T("file://")>>), T("true"))}
Sec == Obj("StackSettingsSecureConfigValue", <<"secure">>, <<T("c")>>)
Stacks == {Obj("StackSettings", StackFields, <<NullS, NullS, NullS, NullS>>),
           Obj("StackSettings", StackFields, <<T("sp"), T("ek"), T("es"), [t |-> "dict", k |-> <<"p:a", "p:b", "p:c">>, l |-> <<T("1"), Sec, [t |-> "list", l |-> <<LitS("1"), LitS("null")>>]>>]>>)}
Names == {"dev", "org/dev", "prod"}
OpSet ==
  {[op |-> "saveproject", s |-> s] : s \in Projects}
  \cup {[op |-> "savestack", name |-> n, s |-> s] : n \in Names, s \in Stacks}
  \cup {[op |-> "put", f |-> f, s |-> s] : f \in {"Pulumi.json", "Pulumi.yml", "Pulumi.yaml"}, s \in Projects}
  \cup {[op |-> "put", f |-> f, s |-> s] : f \in {"Pulumi.dev.json", "Pulumi.dev.yml"}, s \in Stacks}
  \cup {[op |-> "del", f |-> f] : f \in {"Pulumi.yaml", "Pulumi.dev.yaml"}}
Wire(s) == IF s.c = "ProjectSettings" THEN WriteProject(s) ELSE WriteStack(s)
Do(b, o) == CASE o.op = "saveproject" -> PutFile(b, FileFor(b, ProjectBase), WriteProject(o.s))
              [] o.op = "savestack" -> PutFile(b, FileFor(b, StackBase(o.name)), WriteStack(o.s))
              [] o.op = "put" -> PutFile(b, o.f, Wire(o.s))
              [] OTHER -> DelFile(b, o.f)
Init == fs = <<>> /\ ops = <<>> /\ prev = <<>>
Next == Len(ops) < NOps /\ \E o \in OpSet : ops' = Append(ops, o) /\ fs' = Do(fs, o) /\ prev' = fs
Spec == Init /\ [][Next]_<<fs, ops, prev>>
Rd(b, base) == Data(b, FirstExt(b, base, 1))
Guarantees ==
  LET o == IF ops = <<>> THEN [op |-> "none"] ELSE ops[Len(ops)]
      ok == \* what was saved is read back, whichever file it went to
            /\ (o.op = "saveproject" => Eq(ReadProject(Rd(fs, ProjectBase)), o.s))
            /\ (o.op = "savestack" => Eq(ReadStack(Rd(fs, StackBase(o.name))), NormStack(o.s)))
            \* and no other stack's settings change; names that end alike are the same stack's
            /\ (o.op = "savestack" => \A n \in Names : StackBase(n) # StackBase(o.name) => FirstExt(fs, StackBase(n), 1) = FirstExt(prev, StackBase(n), 1)
                                        /\ (Found(fs, StackBase(n)) => Rd(fs, StackBase(n)) = Rd(prev, StackBase(n))))
            /\ (o.op = "savestack" => (Found(fs, ProjectBase) = Found(prev, ProjectBase)))
            \* saving never makes a second file for the same settings
            /\ (o.op \in {"saveproject", "savestack"} => Len(fs) <= Len(prev) + 1)
            /\ (o.op = "saveproject" /\ Found(prev, ProjectBase) => Len(fs) = Len(prev))
  IN ok /\ (IF Len(ops) < NOps THEN TRUE ELSE PrintT("@@" \o ToJson([ops |-> ops])))
=============================================================================
