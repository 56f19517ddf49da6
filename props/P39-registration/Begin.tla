------------------------------- MODULE Begin -------------------------------
(* Which sources a node starts with, and when they first say something. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES row, left, on, out
vars == <<row, left, on, out>>
Names == {"file_content", "inventory_content", "other", ""}
Lists == {<<>>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names}
Rows == [reg : Lists, data : BOOLEAN, interval : {-1, 0, 1, 20}, splay : BOOLEAN, collective : {"", "reg"}]
Init == row \in {r \in Rows : r.collective = "reg" => r.interval = 20} /\ left = row.reg /\ on = {} /\ out = "starting"
Start ==
  /\ out = "starting" /\ left # <<>> /\ left' = Tail(left) /\ UNCHANGED row
  /\ CASE Head(left) = "" -> out' = "ok" /\ UNCHANGED on
       [] Head(left) = "other" -> out' = "error" /\ UNCHANGED on
       [] Head(left) = "file_content" /\ ~row.data -> out' = "error" /\ UNCHANGED on
       [] OTHER -> UNCHANGED out /\ on' = on \cup {Head(left)}
Done == out = "starting" /\ left = <<>> /\ out' = "ok" /\ UNCHANGED <<row, left, on>>
Next == Start \/ Done
Spec == Init /\ [][Next]_vars
(* nobody is polled without an interval *)
Polled == IF row.interval <= 0 THEN {} ELSE on
Twice(n) == Len(SelectSeq(row.reg, LAMBDA x : x = n)) > 1
Emit == out # "starting" /\ (\A n \in Names : ~Twice(n)) => PrintT("@@" \o ToJson([row |-> row, ok |-> out = "ok", on |-> Polled,
          last |-> IF row.splay THEN 4 + row.interval - 1 ELSE 4, in |-> IF row.collective = "" THEN "main" ELSE row.collective]))
OnlyNamed == \A n \in on : \E i \in DOMAIN row.reg : row.reg[i] = n
============================================================================
