------------------------------- MODULE Archive -------------------------------
(* An archive watcher and its target directory: in each round the wanted version may change, the deployed files    *)
(* may be edited and what the web server answers is chosen; then the watcher makes one check.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES cfg,     \* [verify: are content checksums configured, auth: user name and password]
          want,    \* the version the watcher is configured for
          target,  \* what is deployed
          act
vars == <<cfg, want, target, act>>
View == <<cfg, want, target>>
Vers == {"v1", "v2"}
Damaged == {"changed", "truncated", "lost", "sumsedit", "nosums"}   \* a deployed version with one thing wrong
Targets == {"absent", "file", "empty"} \cup Vers \cup {v \o "+" : v \in Vers} \cup {v \o "-" \o d : v \in Vers, d \in Damaged}
IsDir(t) == t \notin {"absent", "file"}
(* nothing usable arrives *)
Transport == {"404", "500", "other", "empty", "shortbody", "reset", "nopassword", "badurl", "nochecksum"}
(* an archive with the configured checksum that cannot be unpacked as a whole *)
Shape == {"dotdot", "dotdotdir", "symlink", "symdir", "hardlink", "fifo", "notgzip", "notar", "cuttar", "nodir", "appfile"}
(* an archive that unpacks but whose content does not verify *)
Content == {"a-nosums", "a-badfile", "a-badlast", "a-missing", "a-sums", "a-malformed", "a-othername", "a-longhash"}
(* fine *)
Fine == {"good", "abs", "beside", "dup"}
Verified(t) == IF cfg.verify THEN t \in {want', want' \o "+"} ELSE IsDir(t)
Ok(k) == k \in Fine \/ (~cfg.verify /\ k \in Content)
Made(k) == want' \o (IF k \in Fine THEN "" ELSE "!" \o k)
Edits == {"none", "absent", "file", "empty", "extra"} \cup Damaged
CanEdit(e) == CASE e = "none" -> TRUE
                [] e \in {"absent", "file", "empty"} -> TRUE
                [] OTHER -> target \in Vers
Edit(e) == CASE e = "none" -> target
             [] e \in {"absent", "file", "empty"} -> e
             [] e = "extra" -> target \o "+"
             [] OTHER -> target \o "-" \o e
Init == /\ cfg \in [verify : BOOLEAN, auth : BOOLEAN] /\ want = "v1" /\ target = "absent" /\ act = [x |-> "init"]
Round(w, e, k, eligible) ==
  /\ CanEdit(e) /\ want' = w /\ UNCHANGED cfg
  /\ (k = "nopassword" => cfg.auth)
  /\ LET t == Edit(e)
         v == Verified(t)
         out == CASE ~eligible -> "skipped" [] v -> "verified" [] Ok(k) -> "downloaded" [] OTHER -> "error"
     IN /\ target' = IF out = "downloaded" THEN Made(k) ELSE t
        /\ act' = [x |-> "round", want |-> w, e |-> e, k |-> k, out |-> out, hits |-> IF out \in {"skipped", "verified"} \/ k \in {"badurl", "nochecksum"} THEN 0 ELSE 1]
Kinds == Transport \cup Shape \cup Content \cup Fine
Next == \/ \E w \in Vers, k \in Kinds : Round(w, "none", k, TRUE)
        \/ \E e \in Edits, k \in {"good", "404", "other", "dotdot", "a-badfile", "nodir"} : Round(want, e, k, TRUE)
        \/ \E e \in {"none", "changed"} : Round(want, e, "good", FALSE)
Spec == Init /\ [][Next]_vars
(* the target is only ever replaced by verified content of the wanted version *)
OnlyVerified == [][act'.x = "round" /\ target' /= Edit(act'.e) => /\ act'.out = "downloaded" /\ act'.k \notin Transport \cup Shape
                                                                 /\ (cfg.verify => target' = want' /\ act'.k \in Fine)]_vars
Restored == [][act'.x = "round" /\ act'.out /= "skipped" /\ act'.k = "good" => act'.out \in {"verified", "downloaded"} /\ (cfg.verify => target' \in {want', want' \o "+"})]_vars
F == [cfg |-> cfg, want |-> want, target |-> target]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
