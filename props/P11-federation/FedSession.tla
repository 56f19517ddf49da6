----------------------------- MODULE FedSession -----------------------------
(* Clients, two broker instances of one federation and nodes, seen at rest: what has arrived where *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Reqs, Nodes, MaxReplies
VARIABLES sent,     \* request -> set of targets, {} before it is sent
          arrived,  \* <<request, node>> that reached their node
          replied,  \* <<request, node>> -> number of replies sent
          back,     \* <<request, node>> -> number of replies at the client
          up,       \* how many brokers run
          act
vars == <<sent, arrived, replied, back, up, act>>
St == [sent |-> {[r |-> q, t |-> sent[q]] : q \in Reqs}, arrived |-> arrived, back |-> {[r |-> x[1], n |-> x[2], c |-> back[x]] : x \in DOMAIN back}, up |-> up]
Pairs == Reqs \X Nodes
Init == sent = [q \in Reqs |-> {}] /\ arrived = {} /\ replied = [x \in Pairs |-> 0] /\ back = [x \in Pairs |-> 0] /\ up = 2 /\ act = [x |-> "init"]
Send == \E q \in Reqs, T \in SUBSET Nodes : sent[q] = {} /\ T /= {} /\ sent' = [sent EXCEPT ![q] = T] /\ arrived' = arrived \cup {<<q, n>> : n \in T}
          /\ act' = [x |-> "send", q |-> q, t |-> T] /\ UNCHANGED <<replied, back, up>>
(* every node that has requests replies to all of them at once *)
Reply == \E X \in SUBSET arrived : X /= {} /\ (\A x \in X : replied[x] < MaxReplies)
          /\ replied' = [x \in Pairs |-> replied[x] + IF x \in X THEN 1 ELSE 0]
          /\ back' = [x \in Pairs |-> back[x] + IF x \in X THEN 1 ELSE 0]
          /\ act' = [x |-> "reply", from |-> X] /\ UNCHANGED <<sent, arrived, up>>
Junk == \E k \in {"unfederated", "malformed", "notargets", "noreply", "straynofed", "strayreply"} : act' = [x |-> "junk", k |-> k] /\ UNCHANGED <<sent, arrived, replied, back, up>>
Stop == up = 2 /\ up' = 1 /\ act' = [x |-> "stop"] /\ UNCHANGED <<sent, arrived, replied, back>>
Next == Send \/ Reply \/ Junk \/ Stop
Spec == Init /\ [][Next]_vars
View == <<sent, arrived, replied, back, up>>
OncePerReply == \A x \in Pairs : back[x] = replied[x]
OnlyTargets == \A x \in Pairs : (x \in arrived) = (x[2] \in sent[x[1]])
F == [sent |-> sent, arrived |-> arrived, replied |-> {<<x[1], x[2], replied[x]>> : x \in Pairs}, up |-> up]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
