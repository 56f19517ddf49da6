------------------------------- MODULE Cache -------------------------------
(* The short term buffer in front of DNS: an answer is reused for a fixed term after it was obtained, then asked again. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Term, MaxTime, Names
VARIABLES zone, cache, since, gen, last
vars == <<zone, cache, since, gen, last>>
(* zone: what DNS holds for each name now (version, 0 nothing), cache: the version held and its age *)
None == [v |-> 0, age |-> 0]
Init == zone = [n \in Names |-> 1] /\ cache = [n \in Names |-> None] /\ since = 0 /\ gen = 1 /\ last = [op |-> "init"]
Fresh(n) == cache[n].v # 0 /\ cache[n].age < Term
Lookup(n) ==
  LET hit == Fresh(n)
      v == IF hit THEN cache[n].v ELSE zone[n] IN
  /\ cache' = IF hit THEN cache ELSE [cache EXCEPT ![n] = IF v = 0 THEN None ELSE [v |-> v, age |-> 0]]
  /\ last' = [op |-> "lookup", n |-> n, v |-> v, asked |-> ~hit]
  /\ UNCHANGED <<zone, since, gen>>
Change(n) ==
  /\ gen < 3 /\ gen' = gen + 1
  /\ \E v \in {0, gen + 1} : /\ v # zone[n] /\ zone' = [zone EXCEPT ![n] = v]
                             /\ last' = [op |-> "change", n |-> n, v |-> v]
  /\ UNCHANGED <<cache, since>>
Tick ==
  /\ since < MaxTime /\ since' = since + 1
  /\ cache' = [n \in Names |-> IF cache[n].v = 0 THEN None ELSE [cache[n] EXCEPT !.age = IF @ < Term THEN @ + 1 ELSE @]]
  /\ last' = [op |-> "tick"]
  /\ UNCHANGED <<zone, gen>>
Next == Tick \/ \E n \in Names : Lookup(n) \/ Change(n)
Spec == Init /\ [][Next]_vars
(* an answer is never older than the term *)
Bounded == [][ last'.op = "lookup" /\ last'.v # zone[last'.n] => cache[last'.n].age < Term ]_vars
F == [zone |-> zone, cache |-> cache, since |-> since, gen |-> gen]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> last', t |-> F']))
=============================================================================
