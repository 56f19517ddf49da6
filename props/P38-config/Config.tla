-------------------------------- MODULE Config --------------------------------
(* Reading configuration: files one after the other, each line by line, then what follows from the settings. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, Deep
VARIABLES row,   \* [files: sequence of [at, lines], api, home, env]
          f, l,  \* the file and the line that is read next
          set,   \* settings
          raw,   \* settings as text
          out    \* "reading", "ok" or "error"
vars == <<row, f, l, set, raw, out>>
------------------------------------------------------------------------------
(* settings: what kind, and what they are when nobody says *)
Keys == [registerinterval |-> "int", rpcaudit |-> "bool", rpcauthorization |-> "bool", color |-> "bool", loglevel |-> "text", identity |-> "text", collectives |-> "comma", main_collective |-> "text",
         registration_collective |-> "text", libdir |-> "paths", default_discovery_options |-> "each", rpcauthprovider |-> "title", classesfile |-> "path",
         hosts |-> "comma", tls |-> "dur", ssldir |-> "path", srv |-> "bool", srvdomain |-> "text", user |-> "text", signer |-> "text", service |-> "bool", provider |-> "text",
         canon |-> "bool", sanon |-> "bool", token |-> "path", seed |-> "path", port |-> "int", registry |-> "path", other |-> "raw", otherplugin |-> "raw", dotted |-> "raw"]
K == DOMAIN Keys
(* settings that a file of their own can hold *)
Choria == {"hosts", "tls", "ssldir", "srv", "srvdomain", "token", "seed", "port", "signer", "service", "registry"}
EnvKeys == {"srvdomain", "user", "registry"}
Default == [k \in K |-> CASE k = "registerinterval" -> "300" [] k = "rpcaudit" -> "false" [] k = "rpcauthorization" -> "true" [] k = "color" -> "true" [] k = "loglevel" -> "info"
              [] k = "rpcauthprovider" -> "Action_policy" [] k = "classesfile" -> "/opt/puppetlabs/puppet/cache/state/classes.txt" [] k = "tls" -> "2s" [] k = "srv" -> "true" [] k = "service" -> "false"
              [] k = "provider" -> "puppet" [] k \in {"canon", "sanon"} -> "false" [] k = "port" -> "0" [] OTHER -> ""]
(* how values are understood; others are not understood *)
Ints == ("10" :> "10") @@ ("0" :> "0") @@ ("-1" :> "-1") @@ ("+5" :> "5") @@ ("007" :> "7")
IntTexts == DOMAIN Ints \cup {"x", "1.5", "99999999999999999999", "5 5", "0x10", "1e3"}
True == {"1", "yes", "true", "y", "t", "YES", "True", "T"}
BoolTexts == True \cup {"0", "no", "false", "n", "f", "FALSE", "on", "2", "yess", "enable"}
Durs == ("10" :> "10s") @@ ("0" :> "0s") @@ ("5s" :> "5s") @@ ("1m" :> "1m0s") @@ ("1h" :> "1h0m0s") @@ ("1.5h" :> "1h30m0s") @@ ("1h5m" :> "1h5m0s") @@ ("1d" :> "24h0m0s") @@ ("2W" :> "336h0m0s") @@ ("1M" :> "720h0m0s") @@ ("1y" :> "8760h0m0s") @@ ("-5s" :> "-5s") @@ ("0.5d" :> "12h0m0s") @@ ("100ms" :> "100ms")
DurTexts == DOMAIN Durs \cup {"x", "10x", "s", "1 2", "d", "99999999999999999999"}
Lists == ("a" :> <<"a">>) @@ ("a,b" :> <<"a", "b">>) @@ ("a , b,c" :> <<"a", "b", "c">>) @@ ("x.y:1,z:2" :> <<"x.y:1", "z:2">>)
Paths == ("/a" :> <<"/a">>) @@ ("/a:/b" :> <<"/a", "/b">>) @@ ("/c : /d" :> <<"/c", "/d">>)
Each == ("one" :> <<"one">>) @@ ("two=2" :> <<"two=2">>) @@ ("a,b" :> <<"a,b">>)
Titles == ("rego_policy" :> "Rego_policy") @@ ("x" :> "X") @@ ("Action_policy" :> "Action_policy") @@ ("aaasvc" :> "Aaasvc")
Files == ("/a/b" :> "/a/b") @@ ("~/x" :> "HOME/x") @@ ("/a b/c" :> "/a b/c") @@ ("/a~b" :> "/a~b")
Texts == {"plain", "with space", "a=b", "#x", "a # b", "= b"}
Values(k) == CASE Keys[k] = "int" -> IntTexts [] Keys[k] = "bool" -> BoolTexts [] Keys[k] = "dur" -> DurTexts [] Keys[k] = "comma" -> DOMAIN Lists [] Keys[k] = "paths" -> DOMAIN Paths
               [] Keys[k] = "each" -> DOMAIN Each [] Keys[k] = "title" -> DOMAIN Titles [] Keys[k] = "path" -> DOMAIN Files
               [] k = "loglevel" -> {"debug", "warn", "error", "fatal"} [] k = "provider" -> {"file", "choria", "certmanager", "pkcs11"} [] OTHER -> Texts
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o "|" \o Join(Tail(s))
Understood(k, v) == CASE Keys[k] = "int" -> v \in DOMAIN Ints [] Keys[k] = "dur" -> v \in DOMAIN Durs [] OTHER -> TRUE
To(k, v, old) ==
  CASE Keys[k] = "raw" -> old
    [] ~Understood(k, v) -> old
    [] Keys[k] = "int" -> Ints[v]
    [] Keys[k] = "bool" -> (IF v \in True THEN "true" ELSE "false")
    [] Keys[k] = "dur" -> Durs[v]
    [] Keys[k] = "comma" -> Join(Lists[v])
    [] Keys[k] = "paths" -> old \o Join(Paths[v])
    [] Keys[k] = "each" -> old \o Join(Each[v])
    [] Keys[k] = "title" -> Titles[v]
    [] Keys[k] = "path" -> (IF v \in DOMAIN Files THEN Files[v] ELSE v)
    [] OTHER -> v
------------------------------------------------------------------------------
Forms == {"plain", "tight", "wide", "tabs"}
Line(k, v, form) == [k |-> k, v |-> v, form |-> form]
L(k, v) == Line(k, v, "plain")
(* lines that say nothing *)
Noise == {Line("identity", "noise", form) : form \in {"comment", "commentafter", "blank", "junk", "novalue", "long"}}
At(at, lines) == [at |-> at, lines |-> lines]
Row(files) == [files |-> files, api |-> "system", home |-> "no", env |-> "none"]
Two(k) == CHOOSE s \in SUBSET Values(k) : Cardinality(s) = 2 /\ \A v \in s : Understood(k, v) /\ (Keys[k] = "raw" \/ To(k, v, "") # Default[k])
Spots == <<"main", "choria.cfg", "outer", "inner">>
Sample == {"registerinterval", "rpcauthorization", "libdir", "default_discovery_options", "hosts", "tls", "ssldir", "other", "srv", "collectives"}
Short(k) == CASE Keys[k] = "bool" -> {"yes", "no"} [] OTHER -> Two(k)
Single == {Row(<<At("main", <<Line(k, v, form)>>)>>) : k \in K \ {"identity"}, v \in UNION {Values(j) : j \in K}, form \in Forms}
Rows ==
  CASE Part = "values" -> {r \in Single : r.files[1].lines[1].v \in Values(r.files[1].lines[1].k)}
    [] Part = "again" -> UNION {{Row(<<At("main", <<L(k, v), L(k, w)>>)>>) : v \in Values(k), w \in Values(k)} : k \in Sample \ {"tls", "registerinterval", "collectives"}}
         \cup UNION {{Row(<<At("main", <<L(k, v), n, L(k, w), m>>)>>) : v \in Short(k), w \in Short(k), n \in Noise, m \in Noise} : k \in {"registerinterval", "rpcauthorization", "libdir", "hosts"}}
    [] Part = "layers" -> UNION {UNION {{[files |-> <<At("main", a), At("choria.cfg", IF k \notin Choria THEN <<>> ELSE b), At("outer", c), At("inner", d)>>, api |-> api, home |-> h, env |-> "none"] :
                                a \in {<<>>, <<L(k, vw[1])>>}, b \in {<<>>, <<L(k, vw[2])>>}, c \in {<<>>, <<L(k, vw[2])>>}, d \in {<<>>, <<L(k, vw[1])>>},
                                api \in {"system", "user"}, h \in {"no", "yes", "near"}} : vw \in Short(k) \X Short(k)} : k \in Sample}
         \cup {[files |-> <<At("main", a), At(pq[1], b), At(pq[2], c)>>, api |-> "system", home |-> "no", env |-> "none"] :
                  a \in {<<>>, <<L("otherplugin", "plain")>>}, b \in {<<>>, <<L("otherplugin", "a=b"), L("dotted", "plain")>>}, c \in {<<>>, <<L("dotted", "with space")>>},
                  pq \in {<<"other.cfg", "other.conf">>, <<"other.txt", "other.cfg">>, <<"other.d", "other.conf">>, <<"other.conf", "other.txt">>}}
    [] Part = "collectives" -> {[Row(<<At("main", SelectSeq(<<L("collectives", c), L("main_collective", m), L("registration_collective", g), L("provider", p)>>, LAMBDA x : x.v # ""))>>) EXCEPT !.env = e] :
                  c \in {"", "a", "a,b", "a , b,c"}, m \in {"", "a", "z"}, g \in {"", "b"}, p \in {"", "choria", "file"}, e \in {"none", "build1", "build2"}}
    [] Part = "anon" -> {Row(<<At("main", SelectSeq(<<L("canon", c), L("sanon", s), L("signer", u), L("service", v), L("token", t), L("seed", d)>>, LAMBDA x : x.v # ""))>>) :
                  c \in {"", "yes", "no", "on"}, s \in {"", "yes", "no"}, u \in {"", "plain"}, v \in {"", "yes", "no"}, t \in {"", "/a/b"}, d \in {"", "~/x"}}
    [] Part = "env" -> {[Row(<<At("main", a)>>) EXCEPT !.env = e] : a \in {<<>>} \cup {<<L(k, v)>> : k \in EnvKeys, v \in {"/a/b"}} \cup {<<L("srvdomain", "plain"), L("user", "plain"), L("registry", "/a/b")>>}, e \in {"none", "set", "empty"}}
    [] Part = "broken" -> {[Row(<<At("main", <<L("other", "plain")>>)>>) EXCEPT !.api = a, !.env = e] : a \in {"system", "user"}, e \in {"missing", "dir"}}
------------------------------------------------------------------------------
(* from the environment *)
EnvValue(k) == IF row.env = "set" THEN (IF k = "registry" THEN "~/x" ELSE "fromenv") ELSE ""
HasEnv(k) == k \in EnvKeys /\ row.env \in {"set", "empty"}
EnvTo(k) == IF k = "registry" /\ row.env = "set" THEN "HOME/x" ELSE EnvValue(k)
Defaults == [k \in K |-> IF k = "srvdomain" /\ HasEnv(k) THEN EnvTo(k) ELSE Default[k]]
(* which files are read, and what they can set *)
Read(at) == CASE at = "main" -> TRUE
              [] at \in {"choria.cfg", "other.cfg", "other.conf"} -> row.home # "yes"
              [] at \in {"outer", "inner"} -> row.api = "user"
              [] OTHER -> FALSE
Sets(at, k) == at \in {"main", "outer", "inner"} \/ (at = "choria.cfg" /\ k \in Choria)
Says(x) == x.form \in Forms
Init == row \in Rows /\ f = 1 /\ l = 1 /\ set = Defaults /\ raw = <<>> /\ out = (IF row.env \in {"missing", "dir"} THEN "error" ELSE "reading")
Put(r, k, v) == [j \in DOMAIN r \cup {k} |-> IF j = k THEN v ELSE r[j]]
ReadLine ==
  /\ out = "reading" /\ f <= Len(row.files) /\ l <= Len(row.files[f].lines) /\ Read(row.files[f].at)
  /\ LET x == row.files[f].lines[l] IN
     /\ set' = IF Says(x) /\ Sets(row.files[f].at, x.k) THEN [set EXCEPT ![x.k] = IF HasEnv(x.k) THEN EnvTo(x.k) ELSE To(x.k, x.v, @)] ELSE set
     /\ raw' = IF Says(x) THEN Put(raw, x.k, x.v) ELSE raw
  /\ l' = l + 1 /\ UNCHANGED <<row, f, out>>
NextFile ==
  /\ out = "reading" /\ f <= Len(row.files) /\ (l > Len(row.files[f].lines) \/ ~Read(row.files[f].at))
  /\ f' = f + 1 /\ l' = 1 /\ UNCHANGED <<row, set, raw, out>>
(* what follows *)
DefColl(s) == IF row.env = "build1" THEN "g1|" ELSE IF row.env = "build2" THEN "g1|g2|" ELSE IF s["provider"] = "choria" THEN "choria|" ELSE "mcollective|"
First(c) == CASE c \in {"a|", "a|b|", "a|b|c|"} -> "a" [] c \in {"g1|", "g1|g2|"} -> "g1" [] c = "choria|" -> "choria" [] c = "x.y:1|z:2|" -> "x.y:1" [] OTHER -> "mcollective"
Normal(s) ==
  LET c == IF s["collectives"] = "" THEN DefColl(s) ELSE s["collectives"]
      m == IF s["main_collective"] = "" THEN First(c) ELSE s["main_collective"]
      g == IF s["registration_collective"] = "" THEN m ELSE s["registration_collective"]
      t == IF s["sanon"] = "true" /\ s["token"] = "" THEN "CONF/server.jwt" ELSE s["token"]
      d == IF s["sanon"] = "true" /\ s["seed"] = "" THEN "CONF/server.seed" ELSE s["seed"]
  IN [s EXCEPT !["collectives"] = c, !["main_collective"] = m, !["registration_collective"] = g, !["token"] = t, !["seed"] = d]
Refused(s) == s["canon"] = "true" /\ s["signer"] = "" /\ s["service"] = "false"
Finish == /\ out = "reading" /\ f > Len(row.files) /\ out' = (IF Refused(set) THEN "error" ELSE "ok")
          /\ set' = Normal(set) /\ UNCHANGED <<row, f, l, raw>>
Next == ReadLine \/ NextFile \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
Ends == <>(out # "reading")
(* verification of certificates is off only for those who asked for it, and for clients only when others sign for them *)
NoVerify == set["canon"] = "true" \/ set["sanon"] = "true"
AnonSigned == out = "ok" /\ set["canon"] = "true" => set["signer"] # "" \/ set["service"] = "true"
(* a setting differs from its default only when a line, or the environment, says so *)
Reasons == out = "ok" => \A k \in K \ {"collectives", "main_collective", "registration_collective", "token", "seed"} : set[k] # Default[k] => k \in DOMAIN raw \/ HasEnv(k)
(* where nothing accumulates the last line that is understood decides *)
LastLine == out = "ok" /\ Part = "again" => LET ls == row.files[1].lines k == ls[1].k w == (SelectSeq(ls, LAMBDA x : Says(x)))[2].v
                                             IN Keys[k] \in {"int", "bool", "dur", "comma", "path", "text"} /\ Understood(k, w) => set[k] = To(k, w, "") \/ Keys[k] = "text"
                                                \/ k = "collectives"
Emit == out # "reading" => PrintT("@@" \o ToJson([row |-> row, ok |-> out = "ok", set |-> set, raw |-> [k \in DOMAIN raw |-> raw[k]], noverify |-> NoVerify]))
=============================================================================
