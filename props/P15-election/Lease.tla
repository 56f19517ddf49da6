-------------------------------- MODULE Lease --------------------------------
(* Which leases an election accepts, how often it campaigns, and what a     *)
(* store that cannot be reached means.                                      *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE r
TTLs == {0, 500, 999, 1000, 2000, 3000, 5000, 8000, 30000, 3600000, 3600001, 7200000}
Rows == [ttl : TTLs, store : {"up", "flaky", "down"}, bo : BOOLEAN]
Interval(t) == (t * 3) \div 4
Accepts(t) == t >= 1000 /\ t <= 3600000 /\ Interval(t) >= 1000 /\ t - Interval(t) >= 1000
Runs(x) == x.store # "down" /\ Accepts(x.ttl)
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
(* a leader renews, with a second to spare, before its lease ends *)
InTime == Accepts(r.ttl) => Interval(r.ttl) + 1000 <= r.ttl
Emit == PrintT("@@" \o ToJson([r |-> r, runs |-> Runs(r), watch |-> Runs(r) /\ r.store = "up" /\ ~r.bo /\ r.ttl \in {5000, 8000}]))
===============================================================================
