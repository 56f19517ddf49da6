------------------------------- MODULE Adapter -------------------------------
(* Two data adapters of a broker: messages of a topic are received by workers of a queue group, wait in a bounded   *)
(* queue and are published to a stream by other workers. The stream can be slow, or refuse single messages.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMsgs
VARIABLES cfg,    \* per adapter [ver: version of the broker's security, proto, topic, iw: receiving workers, sw: publishing workers, q: length of the queue]
          shut,   \* adapters whose stream does not answer
          fail,   \* adapters whose stream refuses the next message
          hand,   \* messages being published, per adapter
          queue,  \* messages waiting, per adapter
          n,      \* messages sent
          up, act
vars == <<cfg, shut, fail, hand, queue, n, up, act>>
View == <<cfg, shut, fail, hand, queue, n, up>>
A == {"a", "b"}
Topics == {"t1", "t2"}
Good == {"req1", "req2", "rep1", "rep2"}
Kinds == Good \cup {"garbage", "empty", "secure", "hollow"}
Ver(k) == IF k \in {"req1", "rep1"} THEN "1" ELSE "2"
Proto(k) == IF k \in {"req1", "req2"} THEN "request" ELSE IF k \in {"rep1", "rep2"} THEN "reply" ELSE "none"
Sizes == {<<2, 1, 1>>, <<1, 1, 2>>, <<2, 2, 1>>}
Configs == {[a |-> [ver |-> v, proto |-> pa, topic |-> "t1", iw |-> w[1], sw |-> w[2], q |-> w[3]], b |-> [ver |-> v, proto |-> pb, topic |-> t, iw |-> 2, sw |-> 1, q |-> 1]] :
              pa \in {"request", "reply"}, pb \in {"reply"}, t \in Topics, w \in Sizes, v \in {"1", "2"}}
Init == /\ cfg \in Configs /\ shut = {} /\ fail = {} /\ hand = [a \in A |-> <<>>] /\ queue = [a \in A |-> <<>>] /\ n = 0 /\ up = TRUE /\ act = [x |-> "init"]
(* who receives it *)
Takes(a, t, k) == cfg[a].topic = t /\ cfg[a].proto = Proto(k) /\ cfg[a].ver = Ver(k)
Fate(a, t, k) == IF ~Takes(a, t, k) THEN "none"
                 ELSE IF a \in fail THEN "refused"
                 ELSE IF a \notin shut THEN "out"
                 ELSE IF Len(hand[a]) < cfg[a].sw THEN "hand"
                 ELSE IF Len(queue[a]) < cfg[a].q THEN "queue" ELSE "lost"
Send(t, k, s) ==
  /\ up /\ n < MaxMsgs /\ n' = n + 1
  /\ LET m == [i |-> n + 1, k |-> k, s |-> s]
     IN /\ hand' = [a \in A |-> IF Fate(a, t, k) = "hand" THEN Append(hand[a], m) ELSE hand[a]]
        /\ queue' = [a \in A |-> IF Fate(a, t, k) = "queue" THEN Append(queue[a], m) ELSE queue[a]]
        /\ fail' = {a \in fail : Fate(a, t, k) /= "refused"}
        /\ act' = [x |-> "send", t |-> t, k |-> k, s |-> s, i |-> n + 1, fate |-> [a \in A |-> Fate(a, t, k)], out |-> [a \in A |-> IF Fate(a, t, k) = "out" THEN <<m>> ELSE <<>>]]
  /\ UNCHANGED <<cfg, shut, up>>
Shut(a) == up /\ a \notin shut /\ a \notin fail /\ shut' = shut \cup {a} /\ act' = [x |-> "shut", a |-> a] /\ UNCHANGED <<cfg, fail, hand, queue, n, up>>
Open(a) == /\ up /\ a \in shut /\ shut' = shut \ {a} /\ hand' = [hand EXCEPT ![a] = <<>>] /\ queue' = [queue EXCEPT ![a] = <<>>]
           /\ act' = [x |-> "open", a |-> a, out |-> [b \in A |-> IF b = a THEN hand[a] \o queue[a] ELSE <<>>]] /\ UNCHANGED <<cfg, fail, n, up>>
Fail(a) == up /\ a \notin shut /\ a \notin fail /\ fail' = fail \cup {a} /\ act' = [x |-> "fail", a |-> a] /\ UNCHANGED <<cfg, shut, hand, queue, n, up>>
Stop == up /\ shut = {} /\ up' = FALSE /\ act' = [x |-> "stop"] /\ UNCHANGED <<cfg, shut, fail, hand, queue, n>>
Worth(k, s) == s = "n1.example" \/ k \in {"req1", "req2", "rep1", "rep2"}
Next == \/ Stop
        \/ \E t \in Topics, k \in Kinds, s \in {"n1.example", "n2"} : Worth(k, s) /\ Send(t, k, s)
        \/ Shut("a") \/ Open("a")
        \/ \E a \in A : Fail(a)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Bounded == \A a \in A : Len(hand[a]) <= cfg[a].sw /\ Len(queue[a]) <= cfg[a].q /\ (a \notin shut => hand[a] = <<>> /\ queue[a] = <<>>)
InOrder == \A a \in A : LET l == hand[a] \o queue[a] IN \A i, j \in 1..Len(l) : i < j => l[i].i < l[j].i
(* lost only when the stream does not keep up *)
OnlyOverload == [][(act'.x = "send") => \A a \in A : act'.fate[a] = "lost" => Len(queue[a]) = cfg[a].q /\ Len(hand[a]) = cfg[a].sw]_vars
OnlyMine == [][(act'.x = "send") => \A a \in A : act'.fate[a] /= "none" => cfg[a].topic = act'.t /\ cfg[a].proto = Proto(act'.k) /\ cfg[a].ver = Ver(act'.k)]_vars
F == [cfg |-> cfg, shut |-> shut, fail |-> fail, hand |-> hand, queue |-> queue, n |-> n, up |-> up]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
