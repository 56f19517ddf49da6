-------------------------------- MODULE Lock --------------------------------
(* The provisioning lock in time: held from each call of its holder for W ticks *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Callers, W, MaxTime
VARIABLES now, holder, until, act
vars == <<now, holder, until, act>>
View == <<now, holder, until>>
Init == now = 0 /\ holder = "none" /\ until = 0 /\ act = [x |-> "init"]
Held == holder /= "none" /\ now < until
Call(c) == /\ act.x /= "call"
           /\ IF Held /\ holder /= c THEN act' = [x |-> "call", c |-> c, ok |-> FALSE] /\ UNCHANGED <<holder, until>>
              ELSE act' = [x |-> "call", c |-> c, ok |-> TRUE] /\ holder' = c /\ until' = now + W
           /\ now' = now
Tick == now < MaxTime /\ now' = now + 1 /\ act' = [x |-> "tick"] /\ UNCHANGED <<holder, until>>
Next == Tick \/ \E c \in Callers : Call(c)
Spec == Init /\ [][Next]_vars
OneAtATime == [][(act'.x = "call" /\ act'.ok /\ holder' /= holder) => ~Held]_vars
F == [now |-> now, holder |-> holder, until |-> until, k |-> act.x]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
