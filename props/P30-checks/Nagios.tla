------------------------------- MODULE Nagios -------------------------------
(* A Scout check: a machine with the states of the Nagios protocol and one nagios watcher.  What the     *)
(* plugin reported is what the watcher records, announces, exports and what the machine moves to; a      *)
(* plugin that could not be run, did not finish in time or left the protocol is UNKNOWN.                  *)
EXTENDS Naturals, Sequences, TLC, Json

VARIABLES ms,   \* state of the machine
          st,   \* status the watcher reports, ANY where the documentation is silent
          n,    \* length of the history
          end,
          act

States  == {"UNKNOWN", "OK", "WARNING", "CRITICAL"}
Code    == [s \in States |-> CASE s = "OK" -> 0 [] s = "WARNING" -> 1 [] s = "CRITICAL" -> 2 [] s = "UNKNOWN" -> 3]
History == 15

(* what a plugin may do: how it ends, what it prints *)
P(x, o) == [x |-> x, o |-> o]
Ends    == {"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e126", "e255", "kill", "slow", "slowchild",
            "missing", "notexec", "empty", "blank", "quote", "override"}
Outs    == {"none", "text", "perf", "units", "nan", "novalue", "pipes", "junk", "words", "neg"}
Progs   == {P(x, "text") : x \in Ends} \cup {P("e0", o) : o \in Outs} \cup {P("e2", "nan"), P("e1", "perf"), P("e3", "novalue")}

Result(p) == CASE p.x = "e0" -> "OK" [] p.x = "e1" -> "WARNING" [] p.x \in {"e2", "override"} -> "CRITICAL" [] OTHER -> "UNKNOWN"
Ran(p)    == p.x \notin {"slow", "slowchild", "missing", "notexec", "empty", "blank", "quote", "kill"}

M(l, v, u) == [l |-> l, v |-> v, u |-> u]
(* the performance data of each output, thresholds and what is not a number left out *)
Perf(o) == CASE o = "perf"    -> <<M("load1", "0.5", ""), M("load5", "2", "")>>
             [] o = "units"   -> <<M("rta", "12.5", "ms"), M("used", "80", "%"), M("size", "10", "KB"), M("hits", "7", "c")>>
             [] o = "nan"     -> <<M("good", "1", "")>>
             [] o = "novalue" -> <<M("good", "2", "s")>>
             [] o = "neg"     -> <<M("temp", "-4.5", "")>>
             [] OTHER         -> <<>>

vars == <<ms, st, n, end, act>>

Init == /\ ms = "UNKNOWN" /\ st = "NOTCHECKED" /\ n = 0 /\ end = FALSE
        /\ act = [x |-> "init"]

Min(a, b) == IF a < b THEN a ELSE b

Force(p) ==
    /\ p.x \in {"slow", "slowchild"} => n \in {0, 1, History}   \* these take their time
    /\ ms \in States
    /\ ms' = Result(p) /\ st' = Result(p) /\ n' = Min(n + 1, History)
    /\ UNCHANGED end
    /\ act' = [x |-> "force", p |-> p, perf |-> IF Ran(p) THEN Perf(p.o) ELSE <<>>, ran |-> Ran(p), code |-> Code[Result(p)]]

(* checks asked for while one is running: none of them may block the machine *)
Storm(p) ==
    /\ ms \in States
    /\ ms' = Result(p) /\ st' = Result(p) /\ n' = n
    /\ end' = TRUE
    /\ act' = [x |-> "storm", p |-> p, perf |-> <<>>, ran |-> TRUE, code |-> Code[Result(p)]]

Extern(e) ==
    /\ ms \in States
    /\ ms' = e /\ st' = e
    /\ UNCHANGED <<n, end>>
    /\ act' = [x |-> "extern", e |-> e]

Maintenance ==
    /\ ms \in States
    /\ ms' = "MAINTENANCE" /\ st' = "ANY"
    /\ UNCHANGED <<n, end>>
    /\ act' = [x |-> "extern", e |-> "MAINTENANCE"]

(* a check in maintenance is not run, even when asked for *)
Refused ==
    /\ ms = "MAINTENANCE"
    /\ UNCHANGED <<ms, st, n, end>>
    /\ \E e \in {"FORCE_CHECK", "OK"} : act' = [x |-> "extern", e |-> e]

Resume ==
    /\ ms = "MAINTENANCE"
    /\ ms' = "UNKNOWN" /\ st' = "UNKNOWN"
    /\ UNCHANGED <<n, end>>
    /\ act' = [x |-> "extern", e |-> "RESUME"]

Delete ==
    /\ end' = TRUE
    /\ UNCHANGED <<ms, st, n>>
    /\ act' = [x |-> "delete"]

Next == /\ ~end
        /\ \/ \E p \in Progs : Force(p)
           \/ \E p \in {P("e0", "text"), P("e2", "text")} : Storm(p)
           \/ \E e \in States : Extern(e)
           \/ Maintenance \/ Refused \/ Resume \/ Delete

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ ms \in States \cup {"MAINTENANCE"}
          /\ st \in States \cup {"NOTCHECKED", "ANY"}
          /\ n \in 0..History
(* the machine is in the state the last check or transition reported *)
Agree == st \in States => ms = st
(* only a plugin that ran to its end and said so makes a check OK *)
NotOK == act.x = "force" /\ ms = "OK" => act.p.x = "e0" /\ act.ran
(* history never shrinks *)
Grows == [][n' >= n]_vars

View == <<ms, st, n, end>>
F == [ms |-> ms, st |-> st, n |-> n, end |-> end]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
