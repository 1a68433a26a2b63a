-------------------------- MODULE Trace_Settings --------------------------
(***************************************************************************)
(* Checks recorded histories of reads and writes of settings. Each event   *)
(* carries the files of the directory after it.                            *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fs
Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C25", clause |-> cl]))
Judge(cl, ok) == IF ok THEN TRUE ELSE Bad(cl)
It == Items[tid]
Ev == It.ev[l]
Same(a, b) == RangeS([i \in DOMAIN a |-> a[i].f]) = RangeS([i \in DOMAIN b |-> b[i].f]) /\ \A i \in DOMAIN a : Eq(a[i].d, Data(b, a[i].f))
Untouched(f) == Same(DelFile(fs, f), DelFile(Ev.fs, f))
Saved(f, want, read(_)) ==
  /\ Judge("saved-in-its-file", Exists(Ev.fs, f) /\ Untouched(f))
  /\ IF ~Exists(Ev.fs, f) THEN TRUE
     ELSE IF Data(Ev.fs, f).t # "dict" THEN Bad("unreadable")
     ELSE Judge("saved", Eq(read(Data(Ev.fs, f)), want))
Loaded(base, read(_), norm(_)) ==
  /\ Judge("reading-changes-files", Ev.same)
  /\ IF ~Found(fs, base) THEN Judge("nothing-to-read", Ev.got.t = "error")
     ELSE IF Ev.got.t # "ok" THEN Bad("fails-to-read")
     ELSE Judge("read", Eq(norm(Ev.got.v), read(Data(fs, FirstExt(fs, base, 1)))))
Id(x) == x
Default(name) == LET s == [i \in DOMAIN ProjectFields |-> CASE ProjectFields[i] = "name" -> LitS("\"" \o name \o "\"") [] ProjectFields[i] = "runtime" -> LitS("\"python\"")
                                [] ProjectFields[i] = "main" -> LitS("\"" \o It.cwd \o "\"") [] OTHER -> NullS]
                 IN Obj("ProjectSettings", ProjectFields, s)
\* a workspace for an inline program: settings given with it, those of the directory, or the default ones
Open ==
  LET base == Ev.before
      f == FileFor(base, ProjectBase)
      RECURSIVE All(_, _)
      All(b, i) == IF i > Len(Ev.stacks) THEN b ELSE All(PutFile(b, FileFor(b, StackBase(Ev.stacks[i].name)), Ev.stacks[i].s), i + 1)
      withproj == IF Ev.given.t = "obj" THEN PutFile(base, f, Ev.given) ELSE IF Ev.inline /\ ~Found(base, ProjectBase) THEN PutFile(base, f, Default(Ev.project)) ELSE base
      want == All(withproj, 1)
      One(w) == IF w.d.t # "obj" THEN Eq(Data(Ev.fs, w.f), w.d)
                ELSE IF Data(Ev.fs, w.f).t # "dict" THEN FALSE
                ELSE IF w.d.c = "ProjectSettings" THEN Eq(ReadProject(Data(Ev.fs, w.f)), w.d) ELSE Eq(ReadStack(Data(Ev.fs, w.f)), NormStack(w.d))
  IN IF Ev.got.t # "ok" THEN Bad("fails-to-open")
     ELSE /\ Judge("opened-with-files", RangeS([i \in DOMAIN want |-> want[i].f]) = RangeS([i \in DOMAIN Ev.fs |-> Ev.fs[i].f]))
          /\ Judge("opened-with", \A i \in DOMAIN want : Exists(Ev.fs, want[i].f) => One(want[i]))
          /\ Judge("opened-where", Ev.dir)
          /\ Judge("program-of-its-own", Ev.prog)
Init == tid \in 1 .. Len(Items) /\ l = 1 /\ fs = <<>>
Next ==
  /\ l <= Len(It.ev)
  /\ CASE Ev.ev = "saveproject" -> (IF Ev.got.t # "ok" THEN Bad("fails-to-save") ELSE Saved(FileFor(fs, ProjectBase), Ev.s, ReadProject))
       [] Ev.ev = "savestack" -> (IF Ev.got.t # "ok" THEN Bad("fails-to-save") ELSE Saved(FileFor(fs, StackBase(Ev.name)), NormStack(Ev.s), ReadStack))
       [] Ev.ev = "loadproject" -> Loaded(ProjectBase, ReadProject, Id)
       [] Ev.ev = "loadstack" -> Loaded(StackBase(Ev.name), ReadStack, NormStack)
       [] Ev.ev = "open" -> Open
       [] OTHER -> TRUE
  /\ fs' = Ev.fs
  /\ l' = l + 1 /\ UNCHANGED <<tid>>
Spec == Init /\ [][Next]_<<tid, l, fs>>
=============================================================================
