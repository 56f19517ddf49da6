--------------------------------- MODULE Fsm ---------------------------------
(* An Autonomous Agent as declared by its transitions. A definition is a   *)
(* set of transitions e1 and e2 (and optionally a second, disjoint rule    *)
(* for e1) over three states; e1 additionally subscribes to the foreign    *)
(* event other#go and e2 to other#go and other#stop.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Third, Depth, Emit
States == {"a", "b", "c"}
Froms == (SUBSET States) \ {{}}
Rules == [from : Froms, to : States]
NoRule == [from |-> {}, to |-> "a"]
VARIABLES def, st, notes, act
vars == <<def, st, notes, act>>
View == <<def, st, notes>>
Defs == [e1 : Rules, e2 : Rules, x1 : IF Third THEN Rules ELSE {NoRule}]
GoodDef(d) == d.x1.from = {} \/ d.x1.from \cap d.e1.from = {}
Init == /\ def \in {d \in Defs : GoodDef(d)} /\ st = "a" /\ notes = 0 /\ act = [n |-> "init"]

Rule(e, s) == IF e = "e1" /\ s \in def.e1.from THEN <<def.e1.to>>
              ELSE IF e = "e1" /\ s \in def.x1.from THEN <<def.x1.to>>
              ELSE IF e = "e2" /\ s \in def.e2.from THEN <<def.e2.to>>
              ELSE <<>>
(* firing e in s: where it ends and what is announced *)
Fire(e, s) == LET r == Rule(e, s) IN
   IF r = <<>> THEN [s |-> s, note |-> <<>>]
   ELSE IF r[1] = s THEN [s |-> s, note |-> <<>>]   \* already there: nothing happened
   ELSE [s |-> r[1], note |-> <<[e |-> e, from |-> s, to |-> r[1]]>>]
RECURSIVE FireAll(_, _)
FireAll(es, s) == IF es = <<>> THEN [s |-> s, note |-> <<>>]
   ELSE LET h == Fire(Head(es), s) r == FireAll(Tail(es), h.s) IN [s |-> r.s, note |-> h.note \o r.note]
(* rules are declared in the order e1, x1 (also named e1), e2 *)
Subscribed(ev) == CASE ev = "go" -> (IF Third THEN <<"e1", "e1", "e2">> ELSE <<"e1", "e2">>)
                    [] ev = "stop" -> <<"e2">> [] OTHER -> <<>>
Avail(s) == {e \in {"e1", "e2"} : Rule(e, s) # <<>>}

Do(name, es, extra) == LET r == FireAll(es, st) IN
   /\ st' = r.s /\ notes' = notes + Len(r.note) /\ notes' <= Depth
   /\ act' = [n |-> name, x |-> extra, note |-> r.note, avail |-> Avail(r.s)]
   /\ UNCHANGED def
Next == \/ \E e \in {"e1", "e2", "nope", ""} : Do("fire", <<e>>, e)
        \/ \E ev \in {"go", "stop", "other"} : Do("foreign", Subscribed(ev), ev)
        \/ Do("stranger", <<>>, "go")     \* the same event of another machine
Spec == Init /\ [][Next]_vars

Declared == [][st' # st => \E i \in 1..Len(act'.note) : TRUE]_vars
Chain == [][LET n == act'.note IN
     /\ (n = <<>> <=> st' = st) \/ Len(n) > 1
     /\ n # <<>> => n[1].from = st /\ n[Len(n)].to = st'
     /\ \A i \in 1..Len(n) : n[i].from # n[i].to /\ <<n[i].to>> = Rule(n[i].e, n[i].from)
     /\ \A i \in 1..(Len(n) - 1) : n[i].to = n[i + 1].from]_vars
OnlyKnown == st \in States
EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [d |-> def, s |-> st, n |-> notes], a |-> act', t |-> [d |-> def', s |-> st', n |-> notes']]))
=============================================================================
