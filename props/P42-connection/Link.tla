------------------------------- MODULE Link -------------------------------
(* The life of a connection: tries until a broker accepts it, keeps its subscriptions over every loss, stops for good when closed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFails, MaxDrops, MaxOps
VARIABLES phase, fails, drops, ops, subs, pend, act
vars == <<phase, fails, drops, ops, subs, pend, act>>
Subs == {"queue", "chan", "ctx"}
Init == phase = "connecting" /\ fails = 0 /\ drops = 0 /\ ops = 0 /\ subs = {} /\ pend = 0 /\ act = [op |-> "init"]
Away == phase \in {"connecting", "lost"}
(* a try a broker does not accept: it goes away, says the credentials are wrong, or none is known *)
Fail(how) ==
  /\ Away /\ (how = "nowhere" => phase = "connecting") /\ fails < MaxFails /\ fails' = fails + 1 /\ act' = [op |-> "fail", how |-> how]
  /\ UNCHANGED <<phase, drops, ops, subs, pend>>
Accept ==
  /\ Away /\ phase' = "up" /\ pend' = 0
  /\ act' = [op |-> "accept", subs |-> subs, pend |-> pend]
  /\ UNCHANGED <<fails, drops, ops, subs>>
Drop ==
  /\ phase = "up" /\ drops < MaxDrops /\ drops' = drops + 1 /\ phase' = "lost" /\ act' = [op |-> "drop"]
  /\ UNCHANGED <<fails, ops, subs, pend>>
Subscribe(s) ==
  /\ phase = "up" /\ ops < MaxOps /\ ops' = ops + 1 /\ s \notin subs /\ subs' = subs \cup {s} /\ act' = [op |-> "sub", s |-> s]
  /\ UNCHANGED <<phase, fails, drops, pend>>
Unsubscribe(s) ==
  /\ phase \in {"up", "lost"} /\ ops < MaxOps /\ ops' = ops + 1 /\ s \in subs /\ subs' = subs \ {s} /\ act' = [op |-> "unsub", s |-> s]
  /\ UNCHANGED <<phase, fails, drops, pend>>
(* what is published while away is kept for when the connection is back *)
Publish ==
  /\ phase \in {"up", "lost"} /\ ops < MaxOps /\ ops' = ops + 1 /\ act' = [op |-> "pub", away |-> phase = "lost"]
  /\ pend' = IF phase = "lost" THEN pend + 1 ELSE pend
  /\ UNCHANGED <<phase, fails, drops, subs>>
Deliver(s) ==
  /\ phase = "up" /\ ops < MaxOps /\ ops' = ops + 1 /\ s \in subs /\ act' = [op |-> "msg", s |-> s]
  /\ UNCHANGED <<phase, fails, drops, subs, pend>>
Close ==
  /\ phase # "closed" /\ phase' = "closed" /\ subs' = {} /\ pend' = 0 /\ act' = [op |-> "close", was |-> phase]
  /\ UNCHANGED <<fails, drops, ops>>
Next == Accept \/ Drop \/ Publish \/ Close \/ (\E h \in {"gone", "auth", "nowhere"} : Fail(h)) \/ \E s \in Subs : Subscribe(s) \/ Unsubscribe(s) \/ Deliver(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept)
KeepsTrying == Away ~> phase \in {"up", "closed"}
NothingLost == [][ (act'.op \in {"fail", "drop", "accept"}) => subs' = subs ]_vars
ClosedForGood == [][ phase = "closed" => phase' = "closed" ]_vars
F == [phase |-> phase, fails |-> fails, drops |-> drops, ops |-> ops, subs |-> subs, pend |-> pend]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
