----------------------------- MODULE Settings -----------------------------
(***************************************************************************)
(* Project and stack settings of a workspace: files in its directory, what *)
(* they hold, how they are read, which file is written.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeS(s) == {s[i] : i \in DOMAIN s}
LitS(x) == [t |-> "lit", s |-> x]
NullS == LitS("null")
EmptyS == [t |-> "dict", k |-> <<>>, l |-> <<>>]
Key(d, k) == d.l[CHOOSE i \in DOMAIN d.k : d.k[i] = k]
HasKey(d, k) == d.t \in {"dict", "obj"} /\ k \in RangeS(d.k)
Get(d, k) == IF HasKey(d, k) THEN Key(d, k) ELSE NullS
RECURSIVE Eq(_, _)
Eq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Eq(a.l[i], b.l[i])
       [] a.t \in {"dict", "obj"} -> /\ RangeS(a.k) = RangeS(b.k) /\ Len(a.k) = Len(b.k)
                                     /\ (a.t = "obj" => a.c = b.c)
                                     /\ \A i \in DOMAIN a.k : Eq(a.l[i], Key(b, a.k[i]))
       [] OTHER -> a = b

(* ---- files ---- *)
Exts == <<".yaml", ".yml", ".json">>
RECURSIVE LastPart(_, _)
LastPart(n, i) == IF i = 0 THEN n ELSE IF SubSeq(n, i, i) = "/" THEN SubSeq(n, i + 1, Len(n)) ELSE LastPart(n, i - 1)
ProjectBase == "Pulumi"
StackBase(name) == "Pulumi." \o LastPart(name, Len(name))
(* fs: a sequence of [f, d]: a file and the data it holds *)
Exists(fs, f) == \E i \in DOMAIN fs : fs[i].f = f
Data(fs, f) == fs[CHOOSE i \in DOMAIN fs : fs[i].f = f].d
RECURSIVE FirstExt(_, _, _)
FirstExt(fs, base, i) == IF i > Len(Exts) THEN "" ELSE IF Exists(fs, base \o Exts[i]) THEN base \o Exts[i] ELSE FirstExt(fs, base, i + 1)
FileFor(fs, base) == LET f == FirstExt(fs, base, 1) IN IF f = "" THEN base \o ".yaml" ELSE f
Found(fs, base) == FirstExt(fs, base, 1) # ""
PutFile(fs, f, d) == IF Exists(fs, f) THEN [i \in DOMAIN fs |-> IF fs[i].f = f THEN [f |-> f, d |-> d] ELSE fs[i]] ELSE Append(fs, [f |-> f, d |-> d])
DelFile(fs, f) == SelectSeq(fs, LAMBDA x : x.f # f)

(* ---- what is in them ---- *)
ProjectFields == <<"name", "runtime", "main", "description", "author", "website", "license", "config", "template", "backend">>
Obj(c, ks, ls) == [t |-> "obj", c |-> c, k |-> ks, l |-> ls]
OrIf(x, d) == IF x = NullS THEN d ELSE x
ReadRuntime(d) == IF d.t = "dict" THEN Obj("ProjectRuntimeInfo", <<"name", "options">>, <<Get(d, "name"), Get(d, "options")>>) ELSE d
ReadTemplate(d) ==
  IF d = NullS THEN NullS
  ELSE LET c == OrIf(Get(d, "config"), EmptyS) IN
       Obj("ProjectTemplate", <<"description", "quickstart", "config", "important">>,
           <<Get(d, "description"), Get(d, "quickstart"),
             [t |-> "dict", k |-> c.k, l |-> [i \in DOMAIN c.l |-> Obj("ProjectTemplateConfigValue", <<"description", "default", "secret">>,
                 <<Get(c.l[i], "description"), Get(c.l[i], "default"), OrIf(Get(c.l[i], "secret"), LitS("false"))>>)]],
             Get(d, "important")>>)
ReadBackend(d) == IF d = NullS THEN NullS ELSE Obj("ProjectBackend", <<"url">>, <<Get(d, "url")>>)
ReadProject(d) ==
  Obj("ProjectSettings", ProjectFields,
      [i \in DOMAIN ProjectFields |-> LET f == ProjectFields[i] v == Get(d, f) IN
         CASE f = "runtime" -> ReadRuntime(v) [] f = "template" -> ReadTemplate(v) [] f = "backend" -> ReadBackend(v) [] OTHER -> v])

StackFields == <<"secrets_provider", "encrypted_key", "encryption_salt", "config">>
ReadSetting(d) == IF d.t = "dict" /\ d.k = <<"secure">> THEN Obj("StackSettingsSecureConfigValue", <<"secure">>, d.l) ELSE d
Falsy(v) == v \in {NullS, LitS("\"\""), EmptyS}
Plainly(v) == IF Falsy(v) THEN NullS ELSE v
(* Settings with nothing in them are the same as none. *)
ReadStack(d) ==
  LET c == Get(d, "config") IN
  Obj("StackSettings", StackFields,
      <<Plainly(Get(d, "secretsprovider")), Plainly(Get(d, "encryptedkey")), Plainly(Get(d, "encryptionsalt")),
        IF Falsy(c) THEN NullS ELSE [t |-> "dict", k |-> c.k, l |-> [i \in DOMAIN c.l |-> ReadSetting(c.l[i])]]>>)
NormStack(s) == Obj("StackSettings", s.k, [i \in DOMAIN s.l |-> Plainly(s.l[i])])

(* The files are written so that reading them gives what was saved: one way to do it, for the model. *)
RECURSIVE Strip(_)
Strip(v) ==
  IF v.t \in {"obj", "dict"}
  THEN LET ix == SelectSeq([i \in DOMAIN v.k |-> i], LAMBDA i : v.t = "dict" \/ v.l[i] # NullS)
       IN [t |-> "dict", k |-> [j \in DOMAIN ix |-> v.k[ix[j]]], l |-> [j \in DOMAIN ix |-> Strip(v.l[ix[j]])]]
  ELSE v
WriteProject(s) == Strip(s)
WireStack(f) == CASE f = "secrets_provider" -> "secretsprovider" [] f = "encrypted_key" -> "encryptedkey" [] f = "encryption_salt" -> "encryptionsalt" [] OTHER -> f
WriteStack(s) == LET d == Strip(s) IN [d EXCEPT !.k = [i \in DOMAIN d.k |-> WireStack(d.k[i])]]
=============================================================================
