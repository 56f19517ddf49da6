------------------------------- MODULE Executor -------------------------------
(* The executor agent: what a caller may learn about a job and whether it may *)
(* signal it depends on its rights on the agent and action that made the job. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
(* alice may use pkg#install and pkg#remove, bob shell#run *)
May(who, ag, ac) == \/ who = "alice" /\ ag = "pkg" /\ ac \in {"install", "remove"}
                    \/ who = "bob" /\ ag = "shell" /\ ac = "run"
States == {"new", "running", "zero", "three", "killed", "reused", "unknown", "corrupt"}
VARIABLE r
Rows == [act : {"status", "signal"}, caller : {"alice", "bob"}, ag : {"pkg", "shell"}, ac : {"install", "run"}, state : States,
         authz : BOOLEAN, sig : {0, 15}, spool : BOOLEAN]
Valid == {x \in Rows : (x.act = "status" => x.sig = 0) /\ (x.spool \/ x.state = "zero")}
Allowed == ~r.authz \/ May(r.caller, r.ag, r.ac)
Known == r.spool /\ r.state \notin {"unknown", "corrupt"}
Running == r.state = "running"
Started == r.state \notin {"new", "unknown", "corrupt"}
OK == Known /\ (r.act = "signal" => Allowed /\ Running)
Delivered == r.act = "signal" /\ OK /\ r.sig # 0
Exit == CASE r.state = "three" -> 3 [] r.state = "zero" \/ r.state = "reused" -> 0 [] OTHER -> 0 - 1
Init == r \in Valid
Spec == Init /\ [][UNCHANGED r]_r
(* nobody without rights on the job's action signals it or learns its command *)
Safe == /\ (Delivered => Allowed) /\ (Delivered => Running)
Emit == PrintT("@@" \o ToJson([r |-> r, ok |-> OK, delivered |-> Delivered, command |-> OK /\ Allowed, running |-> Running /\ ~Delivered,
                               started |-> Started, exit |-> Exit, killed |-> r.state = "killed"]))
=============================================================================
