-------------------------------- MODULE GovW --------------------------------
(* An exec watcher that runs its command only while it holds a slot of a    *)
(* Governor with one slot: while it waits the slot may be freed, the        *)
(* machine may leave the watcher's states and return, the time allowed for  *)
(* waiting may pass or the watcher may be stopped.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES mode,    \* patient: waits as long as needed; hasty: gives up soon
          here,    \* the machine is in one of the states of the watcher
          slot,    \* free; other: somebody else has it; mine; none: the Governor does not exist
          pc,      \* idle, waiting, running, stopped
          n, act
vars == <<mode, here, slot, pc, n, act>>
View == <<mode, here, slot, pc, n>>
A(op) == [op |-> op, res |-> "", ran |-> FALSE, ev |-> <<>>, note |-> FALSE, lc |-> <<>>, done |-> FALSE]
Init == mode \in {"patient", "hasty"} /\ here = TRUE /\ slot \in {"free", "other", "none"} /\ pc = "idle" /\ n = 0 /\ act = A("init")
Op == n < Depth /\ n' = n + 1 /\ pc # "stopped" /\ UNCHANGED mode
Move == Op /\ pc \in {"idle", "waiting"} /\ mode = "patient" /\ here' = ~here /\ act' = A("move") /\ UNCHANGED <<slot, pc>>
Take == Op /\ pc = "idle" /\ slot = "free" /\ slot' = "other" /\ act' = A("take") /\ UNCHANGED <<here, pc>>
Check == /\ Op /\ pc = "idle" /\ UNCHANGED here
         /\ IF ~here THEN pc' = pc /\ slot' = slot /\ act' = [A("check") EXCEPT !.done = TRUE]
            ELSE CASE slot = "free" -> pc' = "running" /\ slot' = "mine" /\ act' = [A("check") EXCEPT !.ran = TRUE, !.lc = <<"enter">>]
                   [] slot = "other" -> pc' = "waiting" /\ slot' = slot /\ act' = A("check")
                   [] OTHER -> pc' = pc /\ slot' = slot /\ act' = [A("check") EXCEPT !.done = TRUE, !.ev = <<"bad">>, !.note = TRUE, !.lc = <<"timeouts">>]
(* the other holder leaves: the watcher gets the slot; it runs its command only when still in one of its states *)
Free == /\ Op /\ slot = "other" /\ (pc = "waiting" => mode = "patient")
        /\ IF pc = "idle" THEN slot' = "free" /\ act' = A("free") /\ UNCHANGED <<here, pc>>
           ELSE IF here THEN slot' = "mine" /\ pc' = "running" /\ act' = [A("free") EXCEPT !.ran = TRUE, !.lc = <<"enter">>] /\ UNCHANGED here
           ELSE slot' = "free" /\ pc' = "idle" /\ act' = [A("free") EXCEPT !.lc = <<"enter", "exit">>, !.done = TRUE] /\ UNCHANGED here
End(ok) == /\ Op /\ pc = "running" /\ pc' = "idle" /\ slot' = "free" /\ UNCHANGED here
           /\ act' = [A(IF ok THEN "succeed" ELSE "fail") EXCEPT !.ev = IF ok THEN <<"good">> ELSE <<"bad">>, !.note = TRUE, !.lc = <<"exit">>, !.done = TRUE]
GiveUp == Op /\ pc = "waiting" /\ mode = "hasty" /\ pc' = "idle" /\ act' = [A("giveup") EXCEPT !.ev = <<"bad">>, !.note = TRUE, !.lc = <<"timeouts">>, !.done = TRUE] /\ UNCHANGED <<here, slot>>
(* what a watcher that is stopped still announces is of no interest, but nothing runs and nothing is kept *)
Stop == Op /\ pc \in {"waiting", "idle"} /\ pc' = "stopped" /\ act' = A("stop") /\ UNCHANGED <<here, slot>>
Next == Move \/ Take \/ Check \/ Free \/ End(TRUE) \/ End(FALSE) \/ GiveUp \/ Stop
Spec == Init /\ [][Next]_vars
----
(* commands run only with the slot and in the states of the watcher *)
Held == pc = "running" <=> slot = "mine"
Starts == [][act'.ran => slot' = "mine" /\ here]_vars
NoEvent == [][act'.ev # <<>> => here]_vars
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [m |-> mode, h |-> here, s |-> slot, p |-> pc, n |-> n], a |-> act', t |-> [m |-> mode', h |-> here', s |-> slot', p |-> pc', n |-> n']]))
=============================================================================
