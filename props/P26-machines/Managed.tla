------------------------------- MODULE Managed -------------------------------
(* Managed machines: in every round the specification in the machine's data may be replaced and the deployed      *)
(* manager machines tampered with, then the watcher makes one check.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Few
VARIABLES cfg,     \* [kind, purge, key]
          spec,    \* what the data item holds: a valid specification, a kind of bad one or nothing
          disk,    \* per name the manager machine and whether the managed machine is there
          act
vars == <<cfg, spec, disk, act>>
View == <<cfg, spec, disk>>
Names == {"a", "b_c", "x"}
Kinds == {"machines", "plugins", "pluginsdir"}
Keys == {"none", "prop", "signer", "short"}
Vers == {"v1", "v2"}
Empty == [m |-> "no", p |-> FALSE]
Valid == {[ok |-> TRUE, why |-> "", w |-> [n \in Names |-> IF n = "a" THEN wa ELSE IF n = "b_c" THEN wb ELSE "absent"]] :
             wa \in {"absent", "v1", "v2", "nomatch", "badmatch"}, wb \in {"absent", "v1"}} \ {[ok |-> TRUE, why |-> "", w |-> [n \in Names |-> IF n = "a" THEN "badmatch" ELSE IF n = "b_c" THEN "v1" ELSE "absent"]]}
NoW == [n \in Names |-> "absent"]
Unsigned == {"unsigned", "nothex", "otherkey", "otherbody", "short-sig"}
Broken == {"notb64", "notjson", "object", "noname", "nosource", "nosum", "noverify", "null", "wrongtype", "badfield"}
Bad(k) == [ok |-> FALSE, why |-> k, w |-> NoW]
None == Bad("none")
Other == Bad("other") \* some specification that is not acceptable
Init == /\ cfg \in [kind : Kinds, purge : BOOLEAN, key : Keys]
        /\ (cfg.key \in {"short", "signer"} => cfg.purge /\ cfg.kind /= "pluginsdir")
        /\ (Few /\ cfg.key = "none" => cfg.purge /\ cfg.kind = "machines")
        /\ spec = None
        /\ disk \in [Names -> {Empty}] \cup {[n \in Names |-> IF n = "x" THEN [m |-> "v1", p |-> TRUE] ELSE Empty]}
        /\ act = [x |-> "init"]
(* edits of the deployed files between two checks *)
NoEdit == <<"none", "a">>
Edits == {NoEdit} \cup ({"tamper", "strip", "remove", "deploy"} \X {"a"}) \cup {<<"strip", "x">>}
Edit(e, d) == IF e = NoEdit THEN d
              ELSE LET n == e[2]
                   IN CASE e[1] = "tamper" -> [d EXCEPT ![n].m = "bad"]
                        [] e[1] = "strip" -> [d EXCEPT ![n].m = "dir"]
                        [] e[1] = "remove" -> [d EXCEPT ![n].m = "no"]
                        [] e[1] = "deploy" -> [d EXCEPT ![n].p = TRUE]
CanEdit(e) == e = NoEdit \/ disk[e[2]].m /= "no"
(* the specification is acceptable to this watcher *)
Accept(s) == /\ cfg.key /= "short" /\ (s.ok \/ (s.why \in Unsigned /\ cfg.key = "none"))
Discard(s) == s.why \in Unsigned /\ cfg.key \in {"prop", "signer"}
Wanted(s) == {n \in Names : s.w[n] \in Vers}
After(s, d) == [n \in Names |-> IF n \in Wanted(s) THEN [d[n] EXCEPT !.m = s.w[n]]
                                ELSE IF cfg.purge /\ d[n].m /= "no" THEN Empty ELSE d[n]]
Round(s, e, eligible) ==
  /\ CanEdit(e)
  /\ LET d == Edit(e, disk)
     IN IF ~eligible THEN /\ act' = [x |-> "round", put |-> s, e |-> e, out |-> "skipped"]
                          /\ spec' = s /\ disk' = d
        ELSE IF Accept(s) THEN /\ disk' = After(s, d) /\ spec' = s
                               /\ act' = [x |-> "round", put |-> s, e |-> e, out |-> IF disk' = d THEN "unchanged" ELSE "updated"]
        ELSE /\ disk' = d /\ spec' = (IF Discard(s) THEN None ELSE Other)
             /\ act' = [x |-> "round", put |-> s, e |-> e, out |-> "error"]
  /\ UNCHANGED cfg
(* an unsigned but otherwise proper specification lists machine a *)
Filled(k) == IF k \in Unsigned THEN [Bad(k) EXCEPT !.w = [NoW EXCEPT !["a"] = "v1"]] ELSE Bad(k)
Specs == Valid \cup {Filled(k) : k \in Unsigned \cup Broken} \cup {None}
Next == \/ \E s \in Specs : Round(s, NoEdit, TRUE)
        \/ \E e \in {NoEdit, <<"tamper", "a">>} : spec.ok /\ Round(spec, e, FALSE)
        \/ \E e \in Edits : spec.why \notin {"other", "none"} \cup Broken /\ Round(spec, e, TRUE)
Spec == Init /\ [][Next]_vars
(* nothing but an acceptable specification changes what is deployed *)
Guarded == [][act'.out = "error" => disk' = Edit(act'.e, disk)]_vars
(* another check changes nothing *)
Idempotent == [][act'.out \in {"updated", "unchanged"} => After(act'.put, disk') = disk']_vars
Purged == [][act'.out \in {"updated", "unchanged"} /\ cfg.purge => \A n \in Names : disk'[n].m /= "no" => n \in Wanted(act'.put)]_vars
Kept == [][act'.out \in {"updated", "unchanged"} /\ ~cfg.purge => \A n \in Names \ Wanted(act'.put) : disk'[n] = Edit(act'.e, disk)[n]]_vars
F == [cfg |-> cfg, spec |-> spec, disk |-> disk]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
