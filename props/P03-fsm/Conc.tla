-------------------------------- MODULE Conc --------------------------------
(* Trace specification for concurrently fired events: is there a moment    *)
(* for every call, between its start and its return, at which it acted as  *)
(* the definition says? hists[h] = [def, ev]; ev entries are "call" c e,   *)
(* "ret" c, and "note" e from to, in the order they were observed.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
H == JsonDeserialize("hists.json")
VARIABLES h, i, st, pend, done
vars == <<h, i, st, pend, done>>
(* pend: calls started and not yet effective; done: effective, not returned *)
Init == h \in 1..Len(H) /\ i = 1 /\ st = "a" /\ pend = {} /\ done = {}
Has(fs, s) == \E k \in 1..Len(fs) : fs[k] = s
Rule(e, s) == IF e = "e1" /\ Has(H[h].def.e1.from, s) THEN H[h].def.e1.to
              ELSE IF e = "e2" /\ Has(H[h].def.e2.from, s) THEN H[h].def.e2.to ELSE s
Ev == H[h].ev[i]
Eat == /\ i <= Len(H[h].ev) /\ i' = i + 1 /\ h' = h
       /\ CASE Ev.k = "call" -> pend' = pend \cup {<<Ev.c, Ev.e>>} /\ UNCHANGED <<st, done>>
            [] Ev.k = "ret" -> Ev.c \in done /\ done' = done \ {Ev.c} /\ UNCHANGED <<st, pend>>
            [] Ev.k = "note" -> \E p \in pend : p[2] = Ev.e /\ Ev.from = st /\ Ev.to = Rule(Ev.e, st) /\ Ev.to # st
                                   /\ st' = Ev.to /\ pend' = pend \ {p} /\ done' = done \cup {p[1]}
            [] Ev.k = "end" -> Ev.s = st /\ UNCHANGED <<st, pend, done>>
            [] OTHER -> FALSE
Silent == /\ i <= Len(H[h].ev)
          /\ \E p \in pend : Rule(p[2], st) = st /\ pend' = pend \ {p} /\ done' = done \cup {p[1]}
          /\ UNCHANGED <<h, i, st>>
Next == Eat \/ Silent
Spec == Init /\ [][Next]_vars
\* the last event was consumed by some behaviour of the specification: the history is admitted
Accepted == i <= Len(H[h].ev) \/ PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
