----------------------------- MODULE Federation -----------------------------
(* Federation brokers between the federation network, where clients are, and a collective, where the nodes are: *)
(* each broker instance has an ingest, a transformer and an egest queue per direction, several workers take from each. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Msgs, Brokers, Nodes, None
VARIABLES kind,    \* what is sent: [dir, target set, reply target], decided when sent
          at,      \* where each message is
          pubs     \* set of <<message, target, side>> published, with a count
vars == <<kind, at, pubs>>
Dirs == {"request", "reply"}
Kinds == [dir : {"request"}, fed : BOOLEAN, targets : SUBSET Nodes, reply : {"client", None}]
         \cup [dir : {"reply"}, fed : BOOLEAN, targets : {{}}, reply : {"client", None}]
Good(k) == k.fed /\ k.reply /= None /\ (k.dir = "request" => k.targets /= {})
At(x) == [s |-> x, b |-> "", t |-> {}]
Init == kind = [m \in Msgs |-> [dir |-> "none", fed |-> FALSE, targets |-> {}, reply |-> None]] /\ at = [m \in Msgs |-> At("new")] /\ pubs = [x \in Msgs \X (Nodes \cup {"client"}) |-> 0]
Send(m) == at[m].s = "new" /\ \E k \in Kinds : kind' = [kind EXCEPT ![m] = k] /\ at' = [at EXCEPT ![m] = At("network")] /\ UNCHANGED pubs
(* the queue group gives the message to one worker of one broker *)
Ingest(m, b) == /\ at[m].s = "network"
                /\ at' = [at EXCEPT ![m] = IF kind[m].fed THEN [s |-> "transform", b |-> b, t |-> {}] ELSE At("dropped")]
                /\ UNCHANGED <<kind, pubs>>
Transform(m, b) == /\ at[m].s = "transform" /\ at[m].b = b
                   /\ at' = [at EXCEPT ![m] = IF Good(kind[m]) THEN [s |-> "egest", b |-> b, t |-> IF kind[m].dir = "request" THEN kind[m].targets ELSE {kind[m].reply}] ELSE At("dropped")]
                   /\ UNCHANGED <<kind, pubs>>
Publish(m, b) == /\ at[m].s = "egest" /\ at[m].b = b
                 /\ \E t \in at[m].t :
                      /\ pubs' = [pubs EXCEPT ![<<m, t>>] = @ + 1]
                      /\ at' = [at EXCEPT ![m] = IF at[m].t = {t} THEN At("done") ELSE [@ EXCEPT !.t = @ \ {t}]]
                      /\ UNCHANGED kind
Next == \E m \in Msgs : Send(m) \/ \E b \in Brokers : Ingest(m, b) \/ Transform(m, b) \/ Publish(m, b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Wanted(k) == IF ~Good(k) THEN {} ELSE IF k.dir = "request" THEN k.targets ELSE {k.reply}
AtMostOnce == \A x \in DOMAIN pubs : pubs[x] <= 1
OnlyAddressed == \A m \in Msgs, t \in Nodes \cup {"client"} : pubs[<<m, t>>] > 0 => t \in Wanted(kind[m])
Complete == \A m \in Msgs : at[m].s = "done" => \A t \in Wanted(kind[m]) : pubs[<<m, t>>] = 1
DroppedMeansBad == \A m \in Msgs : at[m].s = "dropped" => ~Good(kind[m])
AllHandled == <>(\A m \in Msgs : at[m].s \in {"done", "dropped"})
=============================================================================
