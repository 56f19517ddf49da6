-------------------------------- MODULE JobList --------------------------------
(* Which recorded jobs satisfy a query: at least one criterion is given and  *)
(* all given criteria hold.  Times are hours; a job is running when it was   *)
(* started, has not been recorded as ended and its process lives.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
J(id, agent, action, caller, command, req, ident, at, started, ended, alive) ==
  [id |-> id, agent |-> agent, action |-> action, caller |-> caller, command |-> command, req |-> req, ident |-> ident, at |-> at,
   started |-> started, ended |-> ended, alive |-> alive]
Jobs == { J("j1", "pkg", "install", "alice", "/bin/echo", "r1", "i1", 1, FALSE, FALSE, FALSE),
          J("j2", "pkg", "remove", "bob", "/bin/sleep", "r2", "i1", 2, TRUE, FALSE, TRUE),
          J("j3", "shell", "install", "alice", "/bin/sleep", "r3", "i1", 3, TRUE, TRUE, FALSE),
          J("j4", "pkg", "install", "bob", "/bin/echo", "r1", "i2", 4, TRUE, TRUE, TRUE),      \* its pid now belongs to another process
          J("j5", "shell", "run", "alice", "/bin/echo", "r2", "i1", 5, TRUE, FALSE, FALSE) }   \* its supervisor died with it
VARIABLE q
Qs == [agent : {"", "pkg", "shell"}, action : {"", "install", "run"}, caller : {"", "alice", "bob", "nobody"}, command : {"", "/bin/echo", "/bin"},
       req : {"", "r1", "r2"}, ident : {"", "i1", "I1"}, running : BOOLEAN, completed : BOOLEAN, since : {0, 2, 4}, before : {0, 3, 5}]
Running(j) == j.started /\ ~j.ended /\ j.alive
Given == q.running \/ q.completed \/ q.agent # "" \/ q.action # "" \/ q.caller # "" \/ q.command # "" \/ q.req # "" \/ q.ident # "" \/ q.since # 0 \/ q.before # 0
Match(j) == /\ Given
            /\ (q.running => Running(j)) /\ (q.completed => j.started /\ ~Running(j))
            /\ (q.agent # "" => j.agent = q.agent) /\ (q.action # "" => j.action = q.action) /\ (q.caller # "" => j.caller = q.caller)
            /\ (q.command # "" => j.command = q.command) /\ (q.req # "" => j.req = q.req) /\ (q.ident # "" => j.ident = q.ident)
            /\ (q.since # 0 => j.at > q.since) /\ (q.before # 0 => j.at < q.before)
Init == q \in Qs
Spec == Init /\ [][UNCHANGED q]_q
Matches == {j.id : j \in {k \in Jobs : Match(k)}}
Sound == (q.running /\ q.completed => Matches = {}) /\ (~Given => Matches = {})
Emit == PrintT("@@" \o ToJson([q |-> q, matches |-> Matches]))
=============================================================================
