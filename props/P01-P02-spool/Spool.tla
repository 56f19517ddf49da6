------------------------------- MODULE Spool -------------------------------
(* Life cycle of submission spool messages: one file per message, one      *)
(* worker per priority that repeatedly scans its directory in submission   *)
(* order and publishes what is due.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Msgs,       \* subset of r1 r2 r3 (reliable) u1 u2 (unreliable)
          Limit,      \* configured maximum of the spool
          WithStuck,  \* spool directories may become read only (files cannot be removed)
          MaxScans,   \* bound on behaviours
          Emit

Reliable(m) == m \in {"r1", "r2", "r3"}
Prio(m) == IF m \in {"r3", "u2"} THEN 3 ELSE 1
MaxTries(m) == CASE m = "r1" -> 2 [] m = "r2" -> 3 [] m = "r3" -> 1 [] OTHER -> 500
Prios == {1, 3}

VARIABLES order,   \* priority -> sequence of messages in the spool, in submission order
          tries,   \* message -> failed publishes
          due,     \* message -> may be tried now
          expired, \* message -> older than its ttl
          used,    \* messages ever accepted
          stuck,   \* priority -> directory is read only
          held,    \* finished messages whose file could not be removed yet
          acked, pubs, scans,
          act      \* last action with what it must be seen to do (history only)

vars == <<order, tries, due, expired, used, stuck, held, acked, pubs, scans, act>>
StateView == <<order, tries, due, expired, used, stuck, held, acked, pubs, scans>>

Init == /\ order = [p \in Prios |-> <<>>]
        /\ tries = [m \in Msgs |-> 0]
        /\ due = [m \in Msgs |-> TRUE]
        /\ expired = [m \in Msgs |-> FALSE]
        /\ used = {} /\ stuck = [p \in Prios |-> FALSE] /\ held = {}
        /\ acked = {} /\ pubs = [m \in Msgs |-> 0] /\ scans = 0
        /\ act = [n |-> "init"]

Range(s) == {s[i] : i \in 1..Len(s)}
InSpool(m) == m \in Range(order[Prio(m)])
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)

(* A submission is refused only when the priority already holds more than  *)
(* the limit, or cannot be written to.                                     *)
Submit(m) ==
  /\ m \notin used
  /\ LET p == Prio(m)
         ok == Len(order[p]) + Cardinality({h \in held : Prio(h) = p}) <= Limit /\ ~stuck[p]
     IN /\ order' = IF ok THEN [order EXCEPT ![p] = Append(@, m)] ELSE order
        /\ used' = IF ok THEN used \cup {m} ELSE used
        /\ act' = [n |-> "submit", m |-> m, ok |-> ok]
  /\ UNCHANGED <<tries, due, expired, stuck, held, acked, pubs, scans>>

(* Walk the due messages in order. fails is the set whose publish fails.   *)
RECURSIVE Walk(_, _, _)
Walk(s, fails, acc) ==
  IF s = <<>> THEN acc
  ELSE LET m == Head(s)
           nxt ==
             IF ~due[m] THEN acc
             ELSE IF expired[m] THEN [acc EXCEPT !.gone = @ \cup {m}]
             ELSE IF ~Reliable(m) THEN
                [acc EXCEPT !.pub = Append(@, [m |-> m, tries |-> 0, ok |-> m \notin fails]), !.gone = @ \cup {m}]
             ELSE IF acc.skip THEN acc
             ELSE IF m \in fails THEN
                [acc EXCEPT !.pub = Append(@, [m |-> m, tries |-> tries[m], ok |-> FALSE]),
                            !.failed = @ \cup {m}, !.skip = TRUE,
                            !.gone = IF tries[m] + 1 >= MaxTries(m) THEN @ \cup {m} ELSE @]
             ELSE [acc EXCEPT !.pub = Append(@, [m |-> m, tries |-> tries[m], ok |-> TRUE]),
                              !.gone = @ \cup {m}, !.acked = @ \cup {m}]
       IN Walk(Tail(s), fails, nxt)

Scan(p, fails) ==
  /\ scans < MaxScans
  /\ LET r == Walk(order[p], fails, [pub |-> <<>>, gone |-> {}, failed |-> {}, acked |-> {}, skip |-> FALSE])
         pubset == {r.pub[i].m : i \in 1..Len(r.pub)}
     IN /\ fails \subseteq pubset              \* only outcomes that matter
        /\ stuck[p] => r.failed = {}            \* see DESIGN: failed publishes while read only are not modelled
        /\ order' = [order EXCEPT ![p] = Without(@, r.gone)]
        /\ held' = IF stuck[p] THEN held \cup r.gone ELSE held
        /\ tries' = [m \in Msgs |-> IF m \in r.failed THEN tries[m] + 1 ELSE tries[m]]
        /\ due' = [m \in Msgs |-> IF m \in r.failed THEN FALSE ELSE due[m]]
        /\ acked' = acked \cup r.acked
        /\ pubs' = [m \in Msgs |-> IF m \in pubset THEN pubs[m] + 1 ELSE pubs[m]]
        /\ scans' = scans + 1
        /\ act' = [n |-> "scan", p |-> p, pub |-> r.pub]
  /\ UNCHANGED <<expired, used, stuck>>

Elapse(m) == /\ InSpool(m) /\ ~due[m] /\ ~stuck[Prio(m)] /\ due' = [due EXCEPT ![m] = TRUE]
             /\ act' = [n |-> "elapse", m |-> m]
             /\ UNCHANGED <<order, tries, expired, used, stuck, held, acked, pubs, scans>>

Expire(m) == /\ InSpool(m) /\ ~expired[m] /\ ~stuck[Prio(m)] /\ expired' = [expired EXCEPT ![m] = TRUE]
             /\ act' = [n |-> "expire", m |-> m]
             /\ UNCHANGED <<order, tries, due, used, stuck, held, acked, pubs, scans>>

(* a new process over the same directory; what could not be removed is the *)
(* one thing a restart forgets, so it is only taken while nothing is held  *)
Restart == /\ held = {} /\ used # {}
           /\ act' = [n |-> "restart"]
           /\ UNCHANGED <<order, tries, due, expired, used, stuck, held, acked, pubs, scans>>

Stick(p) == /\ WithStuck /\ ~stuck[p] /\ stuck' = [stuck EXCEPT ![p] = TRUE]
            /\ act' = [n |-> "stick", p |-> p]
            /\ UNCHANGED <<order, tries, due, expired, used, held, acked, pubs, scans>>
Unstick(p) == /\ stuck[p] /\ stuck' = [stuck EXCEPT ![p] = FALSE]
              /\ held' = {h \in held : Prio(h) # p}
              /\ act' = [n |-> "unstick", p |-> p]
              /\ UNCHANGED <<order, tries, due, expired, used, acked, pubs, scans>>

Next == \/ \E m \in Msgs : Submit(m) \/ Elapse(m) \/ Expire(m)
        \/ \E p \in Prios, f \in SUBSET Msgs : Scan(p, f)
        \/ \E p \in Prios : Stick(p) \/ Unstick(p)
        \/ Restart

Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
\* P01: a reliable message leaves the spool only when acknowledged, exhausted or expired
ReliableKept == \A m \in used : Reliable(m) /\ ~InSpool(m) =>
                   m \in acked \/ tries[m] >= MaxTries(m) \/ expired[m]
\* P01: it is published at most MaxTries times and never after it was acknowledged
TriesBound == \A m \in Msgs : Reliable(m) => pubs[m] <= MaxTries(m) /\ (m \in acked => ~InSpool(m))
\* P02: unreliable at most once, and gone after the attempt
UnreliableOnce == \A m \in Msgs : ~Reliable(m) => pubs[m] <= 1 /\ (pubs[m] = 1 => ~InSpool(m))
\* P02: spool bound
Bounded == \A p \in Prios : Len(order[p]) <= Limit + 1
\* P02: within a scan messages go out in submission order, nothing reliable after a failure
ScanOrder == [][act'.n = "scan" =>
   LET P == act'.pub
       Pos(m) == CHOOSE k \in 1..Len(order[act'.p]) : order[act'.p][k] = m
   IN \A i, j \in 1..Len(P) : i < j =>
        Pos(P[i].m) < Pos(P[j].m) /\ (Reliable(P[i].m) /\ Reliable(P[j].m) => P[i].ok)]_vars
RemovedForAReason == [][\A m \in Msgs : InSpool(m) /\ ~InSpool(m)' => act'.n = "scan" /\ act'.p = Prio(m)]_vars

EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"),
              f |-> [o |-> order, t |-> tries, d |-> due, x |-> expired, u |-> used, k |-> stuck, h |-> held, a |-> acked, pb |-> pubs, s |-> scans],
              a |-> act',
              t |-> [o |-> order', t |-> tries', d |-> due', x |-> expired', u |-> used', k |-> stuck', h |-> held', a |-> acked', pb |-> pubs', s |-> scans']]))
=============================================================================
