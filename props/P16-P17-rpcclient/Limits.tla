-------------------------------- MODULE Limits --------------------------------
(* Which of the discovered nodes a request addresses, and in which batches. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

(* k: "none" no limit, "num" a count, "pct" a percentage, "bad" unreadable *)
Num(i) == [k |-> "num", v |-> i, s |-> ToString(i)]
Pct(i) == [k |-> "pct", v |-> i, s |-> ToString(i) \o "%"]
Bad(s) == [k |-> "bad", v |-> 0, s |-> s]
Forms == {[k |-> "none", v |-> 0, s |-> ""]} \cup {Num(i) : i \in {0, 1, 2, 3, 5, 7, 8, 50}}
         \cup {Pct(i) : i \in {0, 1, 10, 29, 34, 50, 58, 67, 99, 100, 101, 150, 400}}
         \cup {Bad(s) : s \in {"x", "5%%", "-1", " 5", "5 ", "%", "1.5", "10.5%", "5x", "+5"}}
         \cup {[k |-> "num", v |-> 1000000, s |-> "99999999999999999999"], [k |-> "pct", v |-> 100000, s |-> "99999999999999999999%"],
               [k |-> "num", v |-> 3, s |-> "03"], [k |-> "pct", v |-> 50, s |-> "050%"]}
Counts == 1..7 \cup {50, 100}
Rows == [n : Counts, batch : {0, 1, 2, 3, 7, 40}, limit : Forms, method : {"random", "first"}, seed : {0, 1, 42}]
        \cup [n : {1, 5}, batch : {0, 2}, limit : Forms, method : {"", "last", "FIRST"}, seed : {1}]
VARIABLES r
Min(a, b) == IF a < b THEN a ELSE b
Wanted == CASE r.limit.k = "none" -> r.n
            [] r.limit.k = "num" -> Min(r.limit.v, r.n)
            [] r.limit.k = "pct" -> Min((r.n * r.limit.v) \div 100, r.n)
            [] OTHER -> 0
Valid == r.method \in {"random", "first"} /\ r.limit.k # "bad" /\ Wanted > 0
Size == IF r.batch = 0 THEN Wanted ELSE r.batch
NBatches == (Wanted + Size - 1) \div Size
Batches == [i \in 1..NBatches |-> IF i < NBatches THEN Size ELSE Wanted - Size * (NBatches - 1)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
Sound == Valid => /\ Wanted \in 1..r.n /\ Sum(Batches) = Wanted
                  /\ \A i \in 1..Len(Batches) : Batches[i] \in 1..Size
Emit == PrintT("@@" \o ToJson([r |-> r, valid |-> Valid, wanted |-> IF Valid THEN Wanted ELSE 0,
                               (* the first nodes in order, unless shuffled *)
                               inorder |-> (r.limit.k = "none" \/ r.method = "first"),
                               batches |-> IF Valid THEN Batches ELSE <<>>]))
=============================================================================
