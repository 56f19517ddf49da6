------------------------------- MODULE Governor -------------------------------
(* A Governor: a limited number of slots that workers take, wait for and    *)
(* give back; slots can also be evicted, expired or reset by a manager, who *)
(* may change the limit, remove the Governor and create it again.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Workers, Stay, Emit      \* workers in Stay do not leave on completion
VARIABLES limit, exists, st, slots, gen, act
vars == <<limit, exists, st, slots, gen, act>>
View == <<limit, exists, st, slots, gen>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Total(f) == Sum(f, Workers)
Waiters(s) == {w \in Workers : s[w] = "wait"}
All(x) == [w \in Workers |-> x]
Init == limit = 1 /\ exists = TRUE /\ st = All("idle") /\ slots = All(0) /\ gen = All(FALSE) /\ act = [n |-> "init"]
A(n, w, x, res) == act' = [n |-> n, w |-> w, x |-> x, res |-> res]
(* the state after s and f changed: the waiter, if any, is let in *)
Admit(s, f, l) == IF Waiters(s) # {} /\ Total(f) < l
                  THEN LET w == CHOOSE w \in Workers : s[w] = "wait" IN
                       st' = [s EXCEPT ![w] = "hold"] /\ slots' = [f EXCEPT ![w] = @ + 1]
                  ELSE st' = s /\ slots' = f
Start(w) == /\ st[w] = "idle" /\ UNCHANGED <<limit, exists, gen>>
            /\ IF ~exists THEN UNCHANGED <<st, slots>> /\ A("start", w, "", "error")
               ELSE IF Total(slots) < limit
               THEN st' = [st EXCEPT ![w] = "hold"] /\ slots' = [slots EXCEPT ![w] = @ + 1] /\ A("start", w, "", "granted")
               ELSE Waiters(st) = {} /\ st' = [st EXCEPT ![w] = "wait"] /\ UNCHANGED slots /\ A("start", w, "", "waiting")
Busy(w) == st[w] = "hold" /\ UNCHANGED <<limit, exists, st, slots, gen>> /\ A("busy", w, "", "error")
Finish(w) == /\ st[w] = "hold" /\ gen' = [gen EXCEPT ![w] = TRUE] /\ UNCHANGED <<limit, exists>>
             /\ LET f == IF w \in Stay \/ slots[w] = 0 THEN slots ELSE [slots EXCEPT ![w] = 0]
                IN Admit([st EXCEPT ![w] = "idle"], f, limit)
             /\ A("finish", w, "", IF w \in Stay \/ slots[w] > 0 THEN "ok" ELSE "any")
(* the finisher of an earlier, completed, campaign: nothing happens *)
Stale(w) == gen[w] /\ st[w] # "wait" /\ UNCHANGED <<limit, exists, st, slots, gen>> /\ A("stale", w, "", "ok")
Cancel(w) == st[w] = "wait" /\ st' = [st EXCEPT ![w] = "idle"] /\ UNCHANGED <<limit, exists, slots, gen>> /\ A("cancel", w, "", "error")
Evict(w) == /\ exists /\ slots[w] > 0 /\ UNCHANGED <<limit, exists, gen>>
            /\ Admit(st, [slots EXCEPT ![w] = @ - 1], limit) /\ A("evict", w, "", "ok")
Reset == exists /\ UNCHANGED <<limit, exists, gen>> /\ Admit(st, All(0), limit) /\ A("reset", "", "", "ok")
Expire == /\ exists /\ Waiters(st) = {} /\ Total(slots) > 0 /\ slots' = All(0) /\ UNCHANGED <<limit, exists, st, gen>>
          /\ A("expire", "", "", "ok")
SetLimit(l) == /\ exists /\ l # limit /\ limit' = l /\ UNCHANGED <<exists, gen>> /\ Admit(st, slots, l)
               /\ A("limit", "", ToString(l), "ok")
Remove == /\ exists /\ (\A w \in Workers : st[w] # "hold") /\ exists' = FALSE /\ slots' = All(0) /\ UNCHANGED <<limit, gen>>
          /\ st' = [w \in Workers |-> IF st[w] = "wait" THEN "idle" ELSE st[w]]
          /\ A("remove", "", "", "ok")
(* sequences of a recreated Governor start over, so nobody may still hold one *)
Create == ~exists /\ exists' = TRUE /\ limit' = 1 /\ UNCHANGED <<st, slots, gen>> /\ A("create", "", "", "ok")
Next == \/ \E w \in Workers : Start(w) \/ Busy(w) \/ Finish(w) \/ Stale(w) \/ Cancel(w) \/ Evict(w)
        \/ Reset \/ Expire \/ Remove \/ Create
        \/ \E l \in 1..2 : SetLimit(l)
Spec == Init /\ [][Next]_vars

Admission == [][Total(slots') > Total(slots) => Total(slots') <= limit']_vars
NoIdleSlot == \A w \in Workers \ Stay : slots[w] <= (IF st[w] = "hold" THEN 1 ELSE 0)
(* nobody waits while a slot is free *)
NoStarving == Waiters(st) # {} => exists /\ Total(slots) >= limit
(* a slot only appears for a worker that is told so *)
Honest == [][\A w \in Workers : slots'[w] > slots[w] => st'[w] = "hold" /\ st[w] # "hold"]_vars
EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [limit |-> limit, exists |-> exists, st |-> st, slots |-> slots, gen |-> gen], a |-> act',
                      t |-> [limit |-> limit', exists |-> exists', st |-> st', slots |-> slots', gen |-> gen']]))
===============================================================================
