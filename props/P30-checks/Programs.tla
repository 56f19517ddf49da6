------------------------------ MODULE Programs ------------------------------
(* What the outcome of a program means to the exec watcher, and which checks a Scout request acts on.    *)
EXTENDS Naturals, Sequences, TLC, Json

VARIABLE r

Opt == [data : BOOLEAN, quiet : BOOLEAN, disown : BOOLEAN]
Ends == {"e0", "e1", "e77", "kill", "slow", "slowchild", "missing", "notexec", "blank", "quote", "template", "args",
         "json", "jsonempty", "jsonlist", "jsoncut", "env"}
ExecRows == {[k |-> "exec", x |-> x, o |-> o] :
               x \in Ends, o \in {q \in Opt : ~(q.data /\ q.disown)}}
(* a program that was disowned is not subject to the timeout *)
Exec == {e \in ExecRows : ~(e.o.disown /\ e.x \in {"slow", "slowchild"})}

Good(e) == LET done == e.x \in {"e0", "args", "json", "jsonempty", "jsonlist", "jsoncut", "env"}
           IN IF e.o.data THEN e.x \in {"json", "jsonempty"} ELSE done
ExecOut(e) == [ev |-> IF Good(e) THEN "good" ELSE "bad",
               outcome |-> IF Good(e) THEN "success" ELSE "error",
               note |-> IF Good(e) /\ e.o.quiet THEN 0 ELSE 1,
               put |-> Good(e) /\ e.o.data /\ e.x = "json"]

-----------------------------------------------------------------------------
(* the node has the checks "a" that can make the transition, "b" that cannot in its present state, "f"   *)
(* whose transition fails, and "m", a machine that is no check; "z" is nothing at all.                    *)
Names   == {"a", "b", "f", "m", "z"}
Lists   == {<<>>} \cup {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names} \cup {<<x, y, w>> : x, y, w \in Names}
Actions == {"trigger", "maintenance", "resume"}
ScoutRows == {[k |-> "scout", act |-> a, list |-> l] : a \in Actions, l \in Lists}

Want(l) == IF l = <<>> THEN <<"a", "b", "f">> ELSE l
In(l, S) == SelectSeq(Want(l), LAMBDA x : x \in S)
ScoutOut(e) == [done |-> In(e.list, {"a"}), skipped |-> In(e.list, {"b"}), failed |-> In(e.list, {"f", "m", "z"}),
                ok |-> IF e.list = <<>> THEN "any" ELSE IF In(e.list, {"f", "m", "z"}) = <<>> THEN "ok" ELSE "aborted"]

-----------------------------------------------------------------------------
Init == r \in Exec \cup ScoutRows
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

Out == IF r.k = "exec" THEN ExecOut(r) ELSE ScoutOut(r)
(* every check named ends up in exactly one list, nothing else does *)
Partition == r.k = "scout" => Len(Out.done) + Len(Out.skipped) + Len(Out.failed) = Len(Want(r.list))
Emit == PrintT("@@" \o ToJson([r |-> r, out |-> Out]))
=============================================================================
