------------------------------ MODULE Settings ------------------------------
(* Which settings make an adapter, and what it then does *)
EXTENDS Naturals, TLC, Json, Sequences
VARIABLE r
Rows == [type : {"", "jetstream", "choria_streams", "nats_stream", "other"}, qlen : {"", "5", "x", "-1"}, iw : {"", "2", "x", "0", "-1"}, topic : {"", "in.>"},
         sw : {"", "1", "x", "0"}, out : {"", "out.x"}, proto : {"", "request", "reply", "other"}]
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
Starts == r.type \in {"jetstream", "choria_streams"} /\ r.qlen \in {"", "5"} /\ r.iw \in {"", "2"} /\ r.sw \in {"", "1"} /\ r.topic # ""
Workers == IF r.iw = "" THEN 10 ELSE 2
Proto == IF r.proto = "request" THEN "request" ELSE "reply"
Emit == PrintT("@@" \o ToJson([r |-> r, ok |-> Starts, iw |-> Workers, proto |-> Proto]))
=============================================================================
