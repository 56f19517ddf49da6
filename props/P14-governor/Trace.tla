--------------------------------- MODULE Trace ---------------------------------
(* Recorded histories of many workers at one Governor: each entry is the     *)
(* moment a worker learnt it holds a slot or set out to give it back.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
H == JsonDeserialize("hists.json")
VARIABLES h, i, hold
vars == <<h, i, hold>>
Init == h \in 1..Len(H) /\ i = 1 /\ hold = {}
Ev == H[h].ev[i]
Next == /\ i <= Len(H[h].ev) /\ i' = i + 1 /\ h' = h
        /\ CASE Ev.k = "granted" -> Ev.w \notin hold /\ Cardinality(hold) < H[h].limit /\ hold' = hold \cup {Ev.w}
             [] Ev.k = "finish" -> Ev.w \in hold /\ hold' = hold \ {Ev.w}
             [] Ev.k = "end" -> hold = {} /\ Ev.active = 0 /\ Ev.granted = H[h].expect /\ UNCHANGED hold
Spec == Init /\ [][Next]_vars
Accepted == i <= Len(H[h].ev) \/ PrintT("@@" \o ToJson([h |-> h]))
================================================================================
