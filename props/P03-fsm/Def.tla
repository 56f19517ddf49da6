--------------------------------- MODULE Def ---------------------------------
(* Which machine definitions load.                                         *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE c
Rows == [name : {"", "m"}, version : {"", "1.0.0"}, initial : {"", "a", "z"}, transitions : {0, 1},
         watchers : {0, 1}, wstate : {"", "a", "b", "z", "nowhere"}, wfail : {"", "e1", "nope"}, wok : {"", "e1", "nope"},
         announce : {"", "1m", "10s", "junk"}, sub : {"none", "ok", "noname", "noevent"}]
\* one transition: e1, from a to b
Bad(r) == (IF r.name = "" THEN 1 ELSE 0) + (IF r.version = "" THEN 1 ELSE 0) + (IF r.initial = "" THEN 1 ELSE 0)
          + (IF r.transitions = 0 THEN 1 ELSE 0) + (IF r.watchers = 0 THEN 1 ELSE 0)
Init == c \in {r \in Rows : Bad(r) <= 1}
Spec == Init /\ [][UNCHANGED c]_c
States(r) == {r.initial} \cup (IF r.transitions = 1 THEN {"a", "b"} ELSE {})
Loads(r) ==
  /\ Bad(r) = 0
  /\ r.wstate = "" \/ r.wstate \in States(r)
  /\ r.wfail \in {"", "e1"} /\ r.wok \in {"", "e1"}
  /\ r.announce \in {"", "1m"}
  /\ r.sub \in {"none", "ok"}
Emit == PrintT("@@" \o ToJson([r |-> c, ok |-> Loads(c)]))
Closed == Loads(c) => (c.wstate # "nowhere")
=============================================================================
