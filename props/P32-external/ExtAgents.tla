------------------------------ MODULE ExtAgents ------------------------------
(* The agents a server offers follow the agent descriptions on disk.          *)
(* Agent a may live in two places, the first one counts; b only in the first. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES F, act
vars == <<F, act>>
(* contents: v1 v2: usable; off: usable, its program declines to activate; dup: cannot be offered (repeated actions, no timeout); bad: not a description of this agent *)
Versions == {"v1", "v2", "off", "dup"}
Blank == [a1 |-> "none", fresh |-> FALSE, a2 |-> "none", b |-> "none", ka |-> <<>>, kb |-> <<>>]
Init == F = Blank /\ act = [op |-> "init"]
(* the description that counts: its content, place and whether it was changed just now *)
CandA == IF F.a1 \in Versions THEN <<F.a1, 1, F.fresh>> ELSE IF F.a2 \in Versions THEN <<F.a2, 2, FALSE>> ELSE <<>>
CandB == IF F.b \in Versions THEN <<F.b, 1, FALSE>> ELSE <<>>
(* what is known of an agent: the version and place in use and whether it is offered *)
After(k, c) == CASE c = <<>> -> <<>>
                 [] c # <<>> /\ c[3] -> k
                 [] OTHER -> IF k # <<>> /\ k[1] = c[1] /\ k[2] = c[2] THEN k
                             ELSE IF c[1] = "dup" THEN k
                             ELSE IF c[1] = "off" /\ k # <<>> /\ k[3] THEN k   \* keeps the one that runs
                             ELSE <<c[1], c[2], c[1] # "off">>
Scan == F' = [F EXCEPT !.ka = After(F.ka, CandA), !.kb = After(F.kb, CandB)] /\ act' = [op |-> "scan"]
WriteA1 == \E v \in Versions \cup {"bad"}, fr \in BOOLEAN : F.a1 # v /\ F' = [F EXCEPT !.a1 = v, !.fresh = fr] /\ act' = [op |-> "write", n |-> "a1", v |-> v, fresh |-> fr]
Age == F.fresh /\ F' = [F EXCEPT !.fresh = FALSE] /\ act' = [op |-> "age"]
WriteA2 == \E v \in {"v1", "v2"} : F.a2 # v /\ F' = [F EXCEPT !.a2 = v] /\ act' = [op |-> "write", n |-> "a2", v |-> v, fresh |-> FALSE]
WriteB == \E v \in {"v1", "off"} : F.b # v /\ F' = [F EXCEPT !.b = v] /\ act' = [op |-> "write", n |-> "b", v |-> v, fresh |-> FALSE]
Remove == \/ F.a1 # "none" /\ F' = [F EXCEPT !.a1 = "none", !.fresh = FALSE] /\ act' = [op |-> "remove", n |-> "a1"]
          \/ F.a2 # "none" /\ F' = [F EXCEPT !.a2 = "none"] /\ act' = [op |-> "remove", n |-> "a2"]
          \/ F.b # "none" /\ F' = [F EXCEPT !.b = "none"] /\ act' = [op |-> "remove", n |-> "b"]
Next == Scan \/ WriteA1 \/ Age \/ WriteA2 \/ WriteB \/ Remove
Spec == Init /\ [][Next]_vars
V == F
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
----
Ks == {F.ka, F.kb}
(* nothing that declines or cannot be offered is offered *)
OnlyUsable == \A k \in Ks : k # <<>> => k[1] # "dup" /\ (k[3] <=> k[1] # "off")
(* looking again at a disk that did not change changes nothing *)
Settles == [][(act'.op = "scan" /\ act.op = "scan") => F' = F]_vars
Gone == [][(act'.op = "scan" /\ CandA = <<>>) => F'.ka = <<>>]_vars
(* a running agent is only ever replaced by one that activates *)
KeepsRunning == [][(act'.op = "scan" /\ F.ka # <<>> /\ F.ka[3] /\ CandA # <<>>) => F'.ka # <<>> /\ F'.ka[3]]_vars
=============================================================================
