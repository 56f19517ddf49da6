-------------------------------- MODULE Tally --------------------------------
(* The fleet version tally: nodes announce themselves with startup and     *)
(* alive events, leave with a shutdown event, and are forgotten when not   *)
(* heard of for more than 80 minutes (a quiet period below lasts 50). The  *)
(* gauge <component, version, leadership label> counts the nodes that took *)
(* that version while the label was in force.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes, Emit
Versions == {"v1", "v2"}
Labels == {"0", "1"}
None == [v |-> "none", age |-> 0, lb |-> "1"]
VARIABLES obs, lead, act
vars == <<obs, lead, act>>
View == <<obs, lead>>
Comp(n) == IF n \in {"A.n1", "A.n2"} THEN "A" ELSE "B"
Init == obs = [n \in Nodes |-> None] /\ lead = "1" /\ act = [n |-> "init"]
Known(n) == obs[n].v # "none"
Set(n, v, lb) == obs' = [obs EXCEPT ![n] = [v |-> v, age |-> 0, lb |-> lb]]
(* an action: what happens and which counters it moves *)
A(name, node, x, ok, bad, expired) == act' = [n |-> name, node |-> node, x |-> x, ok |-> ok, bad |-> bad, expired |-> expired, lead |-> lead]
Startup(n, v) == Set(n, v, lead) /\ UNCHANGED lead /\ A("startup", n, v, 1, 0, {})
Alive(n, v) == Set(n, v, IF obs[n].v = v THEN obs[n].lb ELSE lead) /\ UNCHANGED lead /\ A("alive", n, v, 1, 0, {})
Shutdown(n) == obs' = [obs EXCEPT ![n] = None] /\ UNCHANGED lead /\ A("shutdown", n, "", 1, 0, {})
Quiet(n) == Known(n) /\ obs[n].age < 2 /\ obs' = [obs EXCEPT ![n].age = @ + 1] /\ UNCHANGED lead /\ A("quiet", n, "", 0, 0, {})
Stale == {n \in Nodes : Known(n) /\ obs[n].age = 2}
Maintain == obs' = [n \in Nodes |-> IF n \in Stale THEN None ELSE obs[n]] /\ UNCHANGED lead /\ A("maintain", "", "", 0, 0, Stale)
Lead(l) == lead # l /\ lead' = l /\ UNCHANGED obs /\ A("lead", "", l, 0, 0, {})
Kinds == {"provisioned", "upgraded", "gov-enter", "gov-exit", "gov-timeout", "gov-evict"}
Other(n, k) == UNCHANGED <<obs, lead>> /\ A("other", n, k, 1, 0, {})
Malformed == {"empty", "nojson", "array", "noproto", "badproto", "badtype", "badversion", "ce-source", "ce-nodata", "ce-inner"}
Bad(n, k) == UNCHANGED <<obs, lead>> /\ A("bad", n, k, 0, 1, {})
Machine == {"tr-ok", "tr-proto", "tr-json", "ex-success", "ex-error", "ex-other", "ex-json"}
Mach(k) == UNCHANGED <<obs, lead>> /\ A("machine", "", k, 0, IF k \in {"tr-proto", "tr-json", "ex-json"} THEN 1 ELSE 0, {})
Next == \/ \E n \in Nodes, v \in Versions : Startup(n, v) \/ Alive(n, v)
        \/ \E n \in Nodes : Shutdown(n) \/ Quiet(n)
        \/ Maintain
        \/ \E l \in Labels : Lead(l)
        \/ (\E n \in Nodes, k \in Kinds : n = "A.n1" /\ Other(n, k))
        \/ (\E n \in Nodes, k \in Malformed : n = "A.n1" /\ Bad(n, k))
        \/ \E k \in Machine : Mach(k)
Spec == Init /\ [][Next]_vars

Gauge(c, v, l) == Cardinality({n \in Nodes : Comp(n) = c /\ obs[n].v = v /\ obs[n].lb = l})
Total(c, v) == Gauge(c, v, "0") + Gauge(c, v, "1")
Gauges == [c \in {"A", "B"} |-> [v \in Versions |-> [l \in Labels |-> Gauge(c, v, l)]]]
OnceEach == \A c \in {"A", "B"} : Total(c, "v1") + Total(c, "v2") = Cardinality({n \in Nodes : Comp(n) = c /\ Known(n)})
(* no node is forgotten early, and none survives maintenance after two quiet periods *)
Expiry == [][(act'.n = "maintain" => \A n \in Nodes : obs'[n].age < 2) /\
             (\A n \in Nodes : Known(n) /\ obs'[n].v = "none" => act'.n = "shutdown" \/ (act'.n = "maintain" /\ obs[n].age = 2))]_vars
Inert == [][act'.n \in {"bad", "other", "machine", "quiet", "lead"} => \A n \in Nodes : obs'[n].v = obs[n].v]_vars
G(o) == [c \in {"A", "B"} |-> [v \in Versions |-> [l \in Labels |-> Cardinality({n \in Nodes : Comp(n) = c /\ o[n].v = v /\ o[n].lb = l})]]]
EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [obs |-> obs, lead |-> lead], a |-> [x |-> act', g |-> G(obs')],
                                           t |-> [obs |-> obs', lead |-> lead']]))
=============================================================================
