-------------------------------- MODULE Gate --------------------------------
(* When is a watcher active?                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES c
Req == [m : {"dep", "dep2", "gone", ""}, s : {"ready", "bad", ""}]
Rows == [active : {<<>>, <<"in">>, <<"other">>, <<"in", "other">>, <<"other", "in">>, <<"other", "third">>},
         state : {"in", "out"}, dep2 : {"ready", "bad"},
         req : {<<>>} \cup {<<r>> : r \in Req} \cup {<<r, q>> : r, q \in Req}]
Init == c \in Rows
Spec == Init /\ [][UNCHANGED c]_c
Foreign(r, m) == CASE m = "dep" -> "ready" [] m = "dep2" -> r.dep2 [] OTHER -> "?"
Own(r) == r.active = <<>> \/ \E i \in 1..Len(r.active) : r.active[i] = r.state
Met(r, q) == q.m # "" /\ q.s # "" /\ Foreign(r, q.m) = q.s
Active(r) == Own(r) /\ \A i \in 1..Len(r.req) : Met(r, r.req[i])
Strict == Active(c) => Own(c) /\ \A i \in 1..Len(c.req) : c.req[i].m \notin {"gone", ""}
Emit == PrintT("@@" \o ToJson([r |-> c, on |-> Active(c)]))
=============================================================================
