----------------------------- MODULE ServerProc -----------------------------
(* What a server does with one message taken from the network, step by      *)
(* step, and what it accounts for it.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES r, stage, ctr, ran, rep
vars == <<r, stage, ctr, ran, rep>>
------------------------------------------------------------------------------
Wires == {"ok", "garbage", "empty", "null", "replykind", "otherproto", "badsecure", "badinner"}
Sigs == {"ok", "forged", "altered", "expired", "foreign", "nofleet", "name", "missing"}
Filters == {"empty", "idme", "idother", "agent", "noagent", "class", "noclass", "fact", "nofact", "all", "allbutid", "allbutfact", "allbutclass", "allbutagent", "ids", "factop", "nofactop"}
Matches == {"empty", "idme", "agent", "class", "fact", "all", "ids", "factop"}
(* age of the request against its TTL: well within, near the end, past it; clocks ahead of this server *)
Ages == {"fresh", "nearold", "old", "ancient", "nearfuture", "future", "zerotime"}
Live == {"fresh", "nearold", "nearfuture"}
(* agents: answering, failing, never answering, answering twice, answering after its timeout, not there *)
Agents == {"live", "err", "slow", "twice", "late", "ghost", "svc"}
Colls == {"mcollective", "other", "foreign"}
Base == [wire |-> "ok", sig |-> "ok", verify |-> TRUE, filter |-> "empty", age |-> "fresh", ttl |-> 60, agent |-> "live", coll |-> "mcollective", path |-> "agent", reply |-> "set", fed |-> FALSE, up |-> TRUE]
Rows ==
  [wire : Wires, sig : {"ok"}, verify : BOOLEAN, filter : {"empty", "idother"}, age : {"fresh"}, ttl : {60}, agent : {"live"}, coll : {"mcollective"}, path : {"node"}, reply : {"set"}, fed : {FALSE}, up : {TRUE}]
  \cup [wire : {"ok"}, sig : Sigs, verify : BOOLEAN, filter : {"empty", "idother"}, age : {"fresh", "old"}, ttl : {60}, agent : {"live"}, coll : {"mcollective"}, path : {"agent", "node"}, reply : {"set"}, fed : {FALSE}, up : {TRUE}]
  \cup [wire : {"ok"}, sig : {"ok", "forged"}, verify : {TRUE}, filter : Filters, age : {"fresh", "old", "future"}, ttl : {60}, agent : {"live"}, coll : {"mcollective"}, path : {"agent"}, reply : {"set"}, fed : {FALSE}, up : {TRUE}]
  \cup [wire : {"ok"}, sig : {"ok"}, verify : BOOLEAN, filter : {"empty"}, age : Ages, ttl : {5, 60, 3600}, agent : {"live"}, coll : {"mcollective", "other"}, path : {"agent", "node"}, reply : {"set"}, fed : BOOLEAN, up : {TRUE}]
  \cup [wire : {"ok"}, sig : {"ok"}, verify : {TRUE}, filter : {"empty", "idme"}, age : {"fresh"}, ttl : {60}, agent : Agents, coll : Colls, path : {"node"}, reply : {"set", "none"}, fed : BOOLEAN, up : {TRUE}]
  \cup [wire : {"ok"}, sig : {"ok", "forged"}, verify : {TRUE}, filter : {"empty", "idother"}, age : {"fresh", "old"}, ttl : {60}, agent : {"live", "ghost"}, coll : {"mcollective"}, path : {"agent", "node"}, reply : {"set"}, fed : {FALSE}, up : {FALSE}]
Zero == [total |-> 0, valid |-> 0, invalid |-> 0, passed |-> 0, filtered |-> 0, expired |-> 0]
Init == r \in Rows /\ stage = "wire" /\ ctr = Zero /\ ran = 0 /\ rep = "none"
Bump(f) == ctr' = [ctr EXCEPT ![f] = @ + 1]
Drop(f) == stage' = "dropped" /\ Bump(f) /\ UNCHANGED <<r, ran, rep>>
Next2(s) == stage' = s /\ UNCHANGED <<r, ctr, ran, rep>>
------------------------------------------------------------------------------
Receive == /\ stage = "wire"
           /\ IF r.up THEN stage' = "parse" /\ Bump("total") /\ UNCHANGED <<r, ran, rep>>
              ELSE Next2("dropped")    \* processing has been stopped
Parse == /\ stage = "parse"
         /\ IF r.wire \in {"garbage", "empty", "null", "otherproto"} THEN Drop("invalid") ELSE Next2("verify")
(* without verification anything signed or not by anyone is taken, for those that turned security off *)
Verify == /\ stage = "verify"
          /\ IF r.wire \in {"replykind", "badsecure"} \/ (r.verify /\ r.sig # "ok") THEN Drop("invalid") ELSE Next2("decode")
Decode == /\ stage = "decode" /\ (IF r.wire = "badinner" THEN Drop("invalid") ELSE Next2("filter"))
Filter == /\ stage = "filter"
          /\ IF r.filter \notin Matches THEN Drop("filtered")
             ELSE stage' = "collective" /\ Bump("passed") /\ UNCHANGED <<r, ran, rep>>
Collective == /\ stage = "collective" /\ (IF r.coll = "foreign" THEN Drop("invalid") ELSE Next2("ttl"))
TTL == /\ stage = "ttl"
       /\ IF r.age \notin Live THEN Drop("expired")
          ELSE stage' = "dispatch" /\ Bump("valid") /\ UNCHANGED <<r, ran, rep>>
Dispatch == /\ stage = "dispatch"
            /\ IF r.agent = "ghost" THEN Next2("done")
               ELSE stage' = "running" /\ ran' = ran + 1 /\ UNCHANGED <<r, ctr, rep>>
(* what the agent answers first counts; nothing to send a reply to, nothing sent *)
Reply == /\ stage = "running"
         /\ stage' = "done"
         /\ rep' = IF r.agent \in {"live", "twice", "svc"} /\ r.reply = "set" THEN "sent" ELSE "none"
         /\ UNCHANGED <<r, ctr, ran>>
Next == Receive \/ Parse \/ Verify \/ Decode \/ Filter \/ Collective \/ TTL \/ Dispatch \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
Ended == stage \in {"dropped", "done"}
OnlyVerified == ran > 0 => r.wire = "ok" /\ (r.sig = "ok" \/ ~r.verify) /\ r.up
OnlyMatching == ran > 0 => r.filter \in Matches
OnlyInTime == ran > 0 => r.age \in Live
OnlyOnce == ran <= 1
NoReplyUnlessRun == rep # "none" => ran = 1
DroppedSilently == stage = "dropped" => ran = 0 /\ rep = "none"
(* every message is in exactly one of the final categories *)
Accounted == Ended /\ r.up => /\ ctr.total = 1 /\ ctr.valid + ctr.invalid + ctr.filtered + ctr.expired = 1
                              /\ ctr.filtered + ctr.passed <= 1
Terminates == <>Ended
Emit == Ended => PrintT("@@" \o ToJson([r |-> r, ran |-> ran, rep |-> rep, ctr |-> ctr]))
=============================================================================
