------------------------------ MODULE Validate ------------------------------
(* Which submissions the spool accepts, and where they land.               *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES c
Rows == [subject : {"", "foo.bar"}, payload : {"", "x"}, prio : {0, 4, 5},
         created : {"zero", "now", "old", "future"},     \* old: an hour ago
         ttl : {0, 60, 7200, 2678400, 2678401},          \* seconds, 31 days and one more
         sender : {"", "me"},
         hdr : {"", "X-Mine", "Choria-Token", "choria", "CHORIA-x", "nats-x", "Nats-Msg-Id", "xchoria", "my-nats"},
         reliable : BOOLEAN]
Few == {r \in Rows : LET odd == (IF r.subject = "" THEN 1 ELSE 0) + (IF r.payload = "" THEN 1 ELSE 0) +
                              (IF r.prio = 5 THEN 1 ELSE 0) + (IF r.sender = "" THEN 1 ELSE 0) IN odd <= 1}
Init == c \in Few
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
ReservedHdr(h) == h \in {"Choria-Token", "choria", "CHORIA-x", "nats-x", "Nats-Msg-Id"}
Accept(r) == /\ r.subject # "" /\ r.payload # "" /\ r.prio <= 4 /\ r.sender # ""
             /\ r.created # "zero"
             /\ r.ttl > 0 /\ r.ttl <= 2678400
             /\ (r.created = "old" => r.ttl > 3600)
             /\ ~ReservedHdr(r.hdr)
\* nothing with a reserved header or without an addressee is ever accepted
Sane == Accept(c) => ~ReservedHdr(c.hdr) /\ c.subject # "" /\ c.prio \in 0..4
Emit == PrintT("@@" \o ToJson([r |-> c, ok |-> Accept(c)]))
=============================================================================
