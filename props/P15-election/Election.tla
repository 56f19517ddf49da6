------------------------------- MODULE Election -------------------------------
(* Leader election over a key with a lease. A campaign creates the key when *)
(* it does not exist, a leader renews it against the revision it last wrote.*)
(* Winning is announced at the first renewal; whoever cannot renew, stops   *)
(* or is cancelled is no leader and, if it was announced, is told it lost.  *)
(* The store may fail before or after it applied a write, the lease may     *)
(* expire and others may overwrite or delete the key at any time.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Members, Timely, Restarts, Emit
VARIABLES kv, valid, st, starts, since, act
vars == <<kv, valid, st, starts, since, act>>
View == <<kv, valid, st, starts, since>>
All(x) == [m \in Members |-> x]
Init == kv = "none" /\ valid = All(FALSE) /\ st = All("idle") /\ starts = All(0) /\ since = All(Members) /\ act = [n |-> "init"]
Up(m) == st[m] # "idle"
A(n, m, x, won, lost, camp) == act' = [n |-> n, m |-> m, x |-> x, won |-> won, lost |-> lost, camp |-> camp]
Start(m) == /\ ~Up(m) /\ starts[m] <= Restarts /\ starts' = [starts EXCEPT ![m] = @ + 1]
            /\ st' = [st EXCEPT ![m] = "cand"] /\ since' = [since EXCEPT ![m] = Members]
            /\ A("start", m, "", 0, 0, "") /\ UNCHANGED <<kv, valid>>
Again(m) == Up(m) /\ A("again", m, "", 0, 0, "") /\ UNCHANGED <<kv, valid, st, starts, since>>
Moved(m) == since' = IF Timely THEN [j \in Members |-> IF j = m THEN {} ELSE since[j] \cup {m}] ELSE since
CanTick(m) == Up(m) /\ (Timely => \A j \in Members \ {m} : Up(j) => j \in since[m])
(* a write the store applies makes every other revision stale *)
Written(m, knows) == kv' = m /\ valid' = [j \in Members |-> j = m /\ knows]
Campaign(m, x) ==
   /\ CanTick(m) /\ st[m] = "cand" /\ Moved(m) /\ UNCHANGED starts
   /\ IF kv = "none" /\ x = "ok" THEN Written(m, TRUE) /\ st' = [st EXCEPT ![m] = "pend"]
      ELSE IF kv = "none" /\ x = "lost" THEN Written(m, FALSE) /\ UNCHANGED st
      ELSE UNCHANGED <<kv, valid, st>>
   /\ A("tick", m, x, 0, 0, "candidate")
Renew(m, x) ==
   /\ CanTick(m) /\ st[m] \in {"pend", "lead"} /\ Moved(m) /\ UNCHANGED starts
   /\ IF valid[m] /\ x = "ok"
      THEN /\ UNCHANGED <<kv, valid>> /\ st' = [st EXCEPT ![m] = "lead"]
           /\ A("tick", m, x, IF st[m] = "pend" THEN 1 ELSE 0, 0, "leader")
      ELSE /\ IF valid[m] /\ x = "lost" THEN Written(m, FALSE) ELSE UNCHANGED kv /\ valid' = [valid EXCEPT ![m] = FALSE]
           /\ st' = [st EXCEPT ![m] = "cand"]
           /\ A("tick", m, x, 0, IF st[m] = "lead" THEN 1 ELSE 0, "leader")
Stop(m, how) == /\ Up(m) /\ st' = [st EXCEPT ![m] = "idle"] /\ valid' = [valid EXCEPT ![m] = FALSE] /\ UNCHANGED <<kv, starts, since>>
                /\ A("stop", m, how, 0, IF st[m] = "lead" THEN 1 ELSE 0, "")
Gone(how) == /\ kv # "none" /\ kv' = "none" /\ valid' = All(FALSE) /\ UNCHANGED <<st, starts, since>> /\ A("store", "", how, 0, 0, "")
Overwritten == /\ kv' = "x" /\ valid' = All(FALSE) /\ UNCHANGED <<st, starts, since>> /\ A("store", "", "overwrite", 0, 0, "")
Next == \/ \E m \in Members : Start(m) \/ Again(m)
        \/ \E m \in Members, x \in {"ok", "fail", "lost"} : Campaign(m, x) \/ Renew(m, x)
        \/ \E m \in Members, how \in {"stop", "cancel"} : Stop(m, how)
        \/ Gone("delete") \/ Overwritten
Spec == Init /\ [][Next]_vars

Leaders == {m \in Members : st[m] = "lead"}
(* when nobody campaigns twice while another member does not campaign at all *)
OneLeader == Timely => Cardinality(Leaders) <= 1
Backed == \A m \in Members : valid[m] => kv = m /\ st[m] \in {"pend", "lead"}
OneHolder == Cardinality({m \in Members : valid[m]}) <= 1
Announced == [][\A m \in Members : (st[m] # "lead" /\ st'[m] = "lead") <=> (act'.m = m /\ act'.won = 1)]_vars
Told == [][\A m \in Members : (st[m] = "lead" /\ st'[m] # "lead") <=> (act'.m = m /\ act'.lost = 1)]_vars
AfterRenewal == [][\A m \in Members : st[m] # "lead" /\ st'[m] = "lead" => st[m] = "pend" /\ valid[m]]_vars
S(k, v, s) == [kv |-> k, v |-> v, st |-> s]
EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [s |-> S(kv, valid, st), n |-> starts, c |-> since], a |-> act',
                                            t |-> [s |-> S(kv', valid', st'), n |-> starts', c |-> since']]))
===============================================================================
