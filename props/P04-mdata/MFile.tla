-------------------------------- MODULE MFile --------------------------------
(* Trace specification: recorded file operations on machine directories    *)
(* never leave the data file partly written (a crash may stop anywhere).   *)
EXTENDS Naturals, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, open, bad
vars == <<t, i, open, bad>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ open = {} /\ bad = ""
Ev == Traces[t][i]
Next == /\ bad = "" /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ t' = t
        /\ open' = CASE Ev.op \in {"create", "modify"} -> open \cup {Ev.f}
                     [] Ev.op = "close" -> open \ {Ev.f}
                     [] Ev.op \in {"from", "delete", "to"} -> open \ {Ev.f, Ev.src}
                     [] OTHER -> open
        /\ bad' = CASE Ev.q /\ Ev.op \in {"create", "modify"} -> "data file written in place"
                    [] Ev.q /\ Ev.op \in {"from", "delete"} -> "data file removed while data exists"
                    [] Ev.q /\ Ev.op = "to" /\ Ev.src \in open -> "data file replaced by one still being written"
                    [] OTHER -> ""
Spec == Init /\ [][Next]_vars
Report == bad = "" \/ PrintT("@@" \o ToJson([t |-> t, i |-> i, bad |-> bad]))
=============================================================================
