-------------------------------- MODULE MData --------------------------------
(* Data of two Autonomous Agents, each with its data file.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Vals, Emit
Keys == {"k1", "k2"}
Ms == {"m", "n"}
Absent == "absent"
VARIABLES mem, disk, snap, ops, act
vars == <<mem, disk, snap, ops, act>>
View == <<mem, disk, snap, ops>>
Empty == [k \in Keys |-> Absent]
Init == /\ mem = [x \in Ms |-> Empty] /\ disk = [x \in Ms |-> Empty]
        /\ snap = Empty /\ ops = 0 /\ act = [n |-> "init"]
Op == ops < MaxOps /\ ops' = ops + 1
Put(x, k, v) == /\ Op /\ mem' = [mem EXCEPT ![x][k] = v] /\ disk' = [disk EXCEPT ![x] = mem'[x]]
                /\ act' = [n |-> "put", x |-> x, k |-> k, v |-> v] /\ UNCHANGED snap
Del(x, k) == /\ Op /\ mem' = [mem EXCEPT ![x][k] = Absent]
             /\ disk' = IF mem[x][k] = Absent THEN disk ELSE [disk EXCEPT ![x] = mem'[x]]
             /\ act' = [n |-> "del", x |-> x, k |-> k] /\ UNCHANGED snap
Reload(x) == /\ Op /\ mem' = [mem EXCEPT ![x] = disk[x]]
             /\ act' = [n |-> "reload", x |-> x] /\ UNCHANGED <<disk, snap>>
(* an unreadable data file is given up, the machine starts without data    *)
Corrupt(x, how) == /\ Op /\ x = "m" /\ mem' = [mem EXCEPT ![x] = Empty] /\ disk' = [disk EXCEPT ![x] = Empty]
                   /\ act' = [n |-> "corrupt", x |-> x, how |-> how] /\ UNCHANGED snap
(* a reader takes a copy and keeps it, and scribbles over another copy     *)
Snap == /\ Op /\ snap' = mem["m"] /\ act' = [n |-> "snap"] /\ UNCHANGED <<mem, disk>>
Scribble == /\ Op /\ act' = [n |-> "scribble"] /\ UNCHANGED <<mem, disk, snap>>
Next == \/ \E x \in Ms, k \in Keys : Del(x, k) \/ \E v \in Vals : Put(x, k, v)
        \/ \E x \in Ms : Reload(x) \/ \E how \in {"truncated", "list", "empty", "null", "missing"} : Corrupt(x, how)
        \/ Snap \/ Scribble
Spec == Init /\ [][Next]_vars
(* nothing completed is ever lost: memory and file agree between operations *)
Durable == mem = disk
Isolated == [][\A x \in Ms : mem'[x] # mem[x] => act'.x = x]_vars
SnapStable == [][act'.n # "snap" => snap' = snap]_vars
EmitRow == ~Emit \/ PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [m |-> mem, d |-> disk, s |-> snap, o |-> ops],
             a |-> act', t |-> [m |-> mem', d |-> disk', s |-> snap', o |-> ops']]))
=============================================================================
