-------------------------------- MODULE Rpc --------------------------------
(* One RPC agent handling one request: parse, look up, authorise, audit, run, reply. *)
(* The agent is ag with one action act. Its policy allows caller me to run act.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES r, pc, status, ran, audited, replies, log
vars == <<r, pc, status, ran, audited, replies, log>>
------------------------------------------------------------------------------
Payloads == {"ok", "nodata", "nulldata", "listdata", "forged", "extra", "garbage", "empty", "text", "list", "null", "badagent", "badaction", "trailing"}
Parses == {"ok", "nodata", "nulldata", "listdata", "forged", "extra", "null"}
Outcomes == {"ok", "aborts", "invalid", "missing", "unknown", "nodata", "nullreply", "unencodable", "silent", "silentfail", "badparams", "validate", "outcome99"}
Row(p, ag, ac, au, ca, ad, o) == [payload |-> p, agent |-> ag, action |-> ac, authz |-> au, caller |-> ca, audit |-> ad, outcome |-> o]
Rows == {Row(p, ag, ac, au, ca, ad, "ok") : p \in Payloads, ag \in {"ag", "other", ""}, ac \in {"act", "nope", "", "ACT"}, au \in {"off", "policy", "unknown", "token"}, ca \in {"me", "other"}, ad \in {"off", "on"}}
        \cup {Row(p, "ag", "act", au, ca, ad, o) : p \in {"ok", "nodata", "listdata", "garbage"}, au \in {"off", "policy"}, ca \in {"me", "other"}, ad \in {"off", "on", "nofile", "badmode", "unwritable"}, o \in Outcomes}
------------------------------------------------------------------------------
Init == /\ r \in Rows /\ pc = "parse" /\ status = "OK" /\ ran = 0 /\ audited = 0 /\ replies = 0 /\ log = <<>>
Fail(s) == status' = s /\ pc' = "reply" /\ UNCHANGED <<ran, audited, replies, log>>
Go(next) == pc' = next /\ UNCHANGED <<status, ran, audited, replies, log>>
Parse == pc = "parse" /\ (IF r.payload \in Parses THEN Go("find") ELSE Fail("InvalidData")) /\ UNCHANGED r
(* a null document names no action *)
Find == pc = "find" /\ (IF r.payload # "null" /\ r.action = "act" THEN Go("authorise") ELSE Fail("UnknownAction")) /\ UNCHANGED r
Allowed == CASE r.authz = "off" -> TRUE
             [] r.authz = "policy" -> r.agent = "ag" /\ r.caller = "me"
             [] r.authz = "token" -> r.agent = "ag" /\ r.caller = "me"
             [] OTHER -> FALSE
Authorise == pc = "authorise" /\ (IF Allowed THEN Go("audit") ELSE Fail("Aborted")) /\ UNCHANGED r
Audit == /\ pc = "audit" /\ pc' = "run"
         /\ IF r.audit = "on" THEN audited' = audited + 1 /\ log' = Append(log, "audit") ELSE UNCHANGED <<audited, log>>
         /\ UNCHANGED <<r, status, ran, replies>>
Status == CASE r.outcome = "aborts" -> "Aborted" [] r.outcome = "invalid" -> "InvalidData" [] r.outcome = "missing" -> "MissingData"
            [] r.outcome \in {"unknown", "outcome99"} -> "UnknownError" [] r.outcome = "silentfail" -> "Aborted"
            [] r.outcome = "badparams" -> IF r.payload \in {"ok", "listdata"} THEN "InvalidData" ELSE "OK"   \* it wants a number where the data holds text
            [] r.outcome = "validate" -> IF r.payload \in {"ok", "listdata"} THEN "InvalidData" ELSE "OK"    \* the value is not shell safe
            [] OTHER -> "OK"
Run == /\ pc = "run" /\ pc' = "reply" /\ ran' = ran + 1 /\ log' = Append(log, "run") /\ status' = Status
       /\ UNCHANGED <<r, audited, replies>>
Silent == ran > 0 /\ r.outcome \in {"silent", "silentfail"}
Reply == /\ pc = "reply" /\ pc' = "done"
         /\ replies' = IF Silent THEN replies ELSE replies + 1
         /\ log' = IF Silent THEN log ELSE Append(log, "reply")
         /\ UNCHANGED <<r, status, ran, audited>>
Next == Parse \/ Find \/ Authorise \/ Audit \/ Run \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
Once == ran <= 1 /\ replies <= 1 /\ audited <= 1
OnlyAllowed == ran > 0 => r.payload \in Parses /\ r.action = "act" /\ Allowed
AuditFirst == (ran > 0 /\ r.audit = "on") => log[1] = "audit"
NoReplyBefore == \A i \in 1..Len(log) : log[i] = "reply" => i = Len(log)
Answered == <>(pc = "done" /\ (replies = 1 \/ Silent))
Emit == pc = "done" => PrintT("@@" \o ToJson([r |-> r, status |-> status, ran |-> ran, audited |-> audited, replies |-> replies, log |-> log]))
=============================================================================
