------------------------------- MODULE FedMsg -------------------------------
(* What one message becomes: which targets get it, on which network, and the headers it then has *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Long
VARIABLE r
Ts == <<"n1", "n2", "n3">>
Targets == {<<>>, <<"n1">>, <<"n2", "n1">>, Ts} \cup (IF Long THEN {[i \in 1..40 |-> "w" \o ToString(i)]} ELSE {})
Rows == [dir : {"request", "reply"}, ver : {1, 2}, fed : BOOLEAN, targets : Targets, reply : {"", "c.r"}, fedreply : {"", "c.f"}, hops : 0..2, fail : SUBSET {1, 2}, body : {"text", "binary", "large"}]
Ok(x) == /\ x.fail \subseteq 1..Len(x.targets) \/ (x.dir = "reply" /\ x.fail \subseteq {1})
         /\ (x.dir = "reply" => Len(x.targets) < 2)
         /\ (~x.fed => x.fedreply = "" /\ Len(x.targets) = 1 /\ x.fail = {})
         /\ (x.body /= "text" => x.hops = 1 /\ x.fail = {})
Init == r \in {x \in Rows : Ok(x)}
Spec == Init /\ [][UNCHANGED r]_r
Good == r.fed /\ IF r.dir = "request" THEN r.targets /= <<>> /\ r.reply /= "" ELSE r.fedreply /= ""
Dest == IF ~Good THEN <<>> ELSE IF r.dir = "request" THEN r.targets ELSE <<r.fedreply>>
Got == {Dest[i] : i \in {j \in 1..Len(Dest) : j \notin r.fail}}
Out == [to |-> Got, side |-> IF r.dir = "request" THEN "collective" ELSE "federation",
        fed |-> r.dir = "request",
        reply |-> IF r.dir = "request" THEN "choria.federation.fed1.collective" ELSE r.reply,
        fedreply |-> IF r.dir = "request" THEN r.reply ELSE "", hops |-> r.hops + 1]
(* what the nodes reply to comes back to the client *)
RoundTrip == (Good /\ r.dir = "request") => Out.reply = "choria.federation.fed1.collective" /\ Out.fedreply = r.reply
Emit == PrintT("@@" \o ToJson([r |-> r, out |-> Out]))
=============================================================================
