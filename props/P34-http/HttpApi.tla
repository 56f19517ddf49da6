------------------------------- MODULE HttpApi -------------------------------
(* The HTTP interface of the autonomous agent host: switches that show and   *)
(* move their machine, and the metrics machines gathered.  Machine m has a   *)
(* switch that works in its declared states, is disabled in LOCK and shows   *)
(* on in ON and off in OFF; machine k has a switch of the same name.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Full
VARIABLES st,    \* state of m, gone when it is not deployed
          pos,   \* what the switch of m shows
          kst,   \* k: ON, OFF; its switch shows the same
          val,   \* what the command of the metric yields now
          met,   \* the last one gathered
          host,  \* the host was busy deploying once in this walk
          over, act
vars == <<st, pos, kst, val, met, host, over, act>>
View == <<st, pos, kst, val, met, host, over>>
Init == st = "OFF" /\ pos = "off" /\ kst \in {"OFF", "ON"} /\ val = 1 /\ met = 1 /\ host = FALSE /\ over = FALSE /\ act = [x |-> "init"]
Forms == {"json", "ha"}
Declared(s) == s \in {"OFF", "ON", "LOCK", "MID"}
Usable(s) == Declared(s) /\ s # "LOCK"
Shows(s, p) == IF s = "ON" THEN "on" ELSE IF s = "OFF" THEN "off" ELSE p   \* what it shows once the machine is in s
Pushed(s, on) == IF on THEN (IF s \in {"OFF", "MID"} THEN "ON" ELSE s) ELSE (IF s = "ON" THEN "OFF" ELSE s)
Word(on) == IF on THEN "on" ELSE "off"
Press(on, how) ==
  /\ LET ok == Usable(st) IN
     /\ st' = IF ok THEN Pushed(st, on) ELSE st
     /\ pos' = IF ok THEN Shows(Pushed(st, on), Word(on)) ELSE pos
     /\ act' = [x |-> "press", m |-> "m", on |-> on, how |-> how, ok |-> ok]
  /\ UNCHANGED <<kst, val, met, host, over>>
PressK(on, how) ==
  /\ kst' = Pushed(kst, on) /\ act' = [x |-> "press", m |-> "k", on |-> on, how |-> how, ok |-> TRUE]
  /\ UNCHANGED <<st, pos, val, met, host, over>>
(* many presses at once, then one more: all are answered and the last one counts *)
Burst(last) ==
  /\ Usable(st) /\ st' = (IF last THEN "ON" ELSE "OFF") /\ pos' = Word(last)
  /\ act' = [x |-> "burst", on |-> last] /\ UNCHANGED <<kst, val, met, host, over>>
(* many presses while the machine is locked by somebody else *)
BurstLock ==
  /\ Usable(st) /\ st' = "LOCK" /\ pos' = "any" /\ over' = TRUE
  /\ act' = [x |-> "burstlock"] /\ UNCHANGED <<kst, val, met, host>>
To == [turn_on |-> "ON", turn_off |-> "OFF", lock |-> "LOCK", unlock |-> "MID", away |-> "AWAY", back |-> "MID"]
From == [turn_on |-> {"OFF", "MID"}, turn_off |-> {"ON"}, lock |-> {"OFF", "ON", "MID"}, unlock |-> {"LOCK"}, away |-> {"OFF", "ON", "MID", "LOCK"}, back |-> {"AWAY"}]
Fire(t) ==
  /\ st \in From[t] /\ st' = To[t] /\ pos' = Shows(To[t], pos)
  /\ met' = (IF Declared(To[t]) THEN val ELSE met)
  /\ act' = [x |-> "fire", t |-> t] /\ UNCHANGED <<kst, val, host, over>>
Measure ==
  /\ st # "gone" /\ val' = 3 - val /\ met' = (IF Declared(st) THEN val' ELSE met)
  /\ act' = [x |-> "measure"] /\ UNCHANGED <<st, pos, kst, host, over>>
(* requests that are not understood change nothing *)
Junks == {"badjson", "put", "delete", "metricpost", "nomachine", "nowatcher", "notswitch", "notmetric", "hidden"}
Junk(j) == act' = [x |-> "junk", j |-> j] /\ UNCHANGED <<st, pos, kst, val, met, host, over>>
Remove == ~host /\ st # "gone" /\ st' = "gone" /\ pos' = "none" /\ host' = TRUE /\ act' = [x |-> "remove"] /\ UNCHANGED <<kst, val, met, over>>
(* another version takes its place, in the same or another directory, while the old one may still be busy gathering *)
Replace(slow, moved) == /\ ~host /\ st # "gone" /\ st' = "OFF" /\ pos' = "off" /\ met' = val /\ host' = TRUE
                 /\ (slow => Declared(st))
                 /\ act' = [x |-> "replace", slow |-> slow, moved |-> moved] /\ UNCHANGED <<kst, val, over>>
(* a version without any of them takes its place *)
Strip == /\ ~host /\ st # "gone" /\ st' = "bare" /\ pos' = "none" /\ host' = TRUE /\ over' = TRUE
         /\ act' = [x |-> "strip"] /\ UNCHANGED <<kst, val, met>>
Next == /\ ~over
        /\ \/ \E on \in BOOLEAN, how \in Forms : Press(on, how) \/ (Full /\ PressK(on, how))
           \/ \E on \in BOOLEAN : Burst(on) \/ PressK(on, "ha")
           \/ BurstLock \/ Measure \/ Remove \/ Strip
           \/ \E t \in DOMAIN To : Fire(t)
           \/ \E j \in Junks : Junk(j)
           \/ \E slow, moved \in BOOLEAN : Replace(slow, moved)
Spec == Init /\ [][Next]_vars
----
Agree == (st = "ON" => pos = "on") /\ (st = "OFF" => pos = "off")
Locked == [][(st \in {"LOCK", "AWAY", "gone"} /\ act'.x = "press" /\ act'.m = "m") => (st' = st /\ pos' = pos)]_vars
Apart == [][(act'.x = "press" /\ act'.m = "m" => kst' = kst) /\ (act'.x = "press" /\ act'.m = "k" => st' = st /\ pos' = pos)]_vars
Stale == [][met' # met => met' = val']_vars
F == [st |-> st, pos |-> pos, kst |-> kst, val |-> val, met |-> met, host |-> host, over |-> over]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
