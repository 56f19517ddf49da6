-------------------------------- MODULE FileW --------------------------------
(* One file watcher, either watching a file for changes or keeping it at a  *)
(* given content and mode.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES managed,  \* content is managed
          file,     \* "absent" or [c content, m mode ok, new: newer than the last time seen]
          never,    \* nothing seen yet (or seen missing): any file counts as new
          here, n, act
vars == <<managed, file, never, here, n, act>>
View == <<managed, file, never, here, n>>
Absent == [c |-> "absent", m |-> TRUE, new |-> FALSE]
Gone == file.c = "absent"
Init == managed \in BOOLEAN /\ file = Absent /\ never = TRUE /\ here = TRUE /\ n = 0 /\ act = [n |-> "init"]
Op(x) == n < Depth /\ n' = n + 1 /\ act' = x /\ UNCHANGED managed
Write(c, newer) == /\ Op([n |-> "write", c |-> c, newer |-> newer])
                   /\ file' = [c |-> c, m |-> TRUE, new |-> newer \/ (~Gone /\ file.new)] /\ UNCHANGED <<never, here>>
Chmod == /\ ~Gone /\ file.m /\ Op([n |-> "chmod"]) /\ file' = [file EXCEPT !.m = FALSE] /\ UNCHANGED <<never, here>>
Remove == ~Gone /\ Op([n |-> "remove"]) /\ file' = Absent /\ UNCHANGED <<never, here>>
Move == Op([n |-> "move"]) /\ here' = ~here /\ UNCHANGED <<file, never>>
IsNew == ~Gone /\ (never \/ file.new)
Res(out, f, nv, made) == /\ file' = f /\ never' = nv
   /\ Op([n |-> "check", out |-> out, ev |-> CASE out = "changed" -> <<"good">> [] out = "error" -> <<"bad">> [] OTHER -> <<>>,
          note |-> out \in {"changed", "error"}, made |-> made])
Check == /\ UNCHANGED here
  /\ IF ~here THEN Res("skipped", file, never, FALSE)
     ELSE IF ~managed THEN
        IF Gone THEN Res("error", file, TRUE, FALSE)
        ELSE IF IsNew THEN Res("changed", [file EXCEPT !.new = FALSE], FALSE, FALSE)
        ELSE Res("unchanged", file, never, FALSE)
     ELSE IF Gone \/ IsNew \/ ~file.m \/ file.c # "want"
          THEN Res("changed", [c |-> "want", m |-> TRUE, new |-> FALSE], FALSE, TRUE)
          ELSE Res("unchanged", file, never, FALSE)
Next == Check \/ Chmod \/ Remove \/ Move \/ \E c \in {"want", "other"}, b \in BOOLEAN : Write(c, b)
Spec == Init /\ [][Next]_vars
(* after an active check of a managed file the file is as wanted *)
Converged == [][act'.n = "check" /\ here /\ managed => file'.c = "want" /\ file'.m]_vars
(* a check right after a check changes nothing and fires nothing, unless the file is missing *)
Idempotent == [][act.n = "check" /\ act'.n = "check" /\ here => act'.out \in {"unchanged", "error"}]_vars
Quiet == [][act'.n = "check" /\ ~here => file' = file /\ act'.ev = <<>>]_vars
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [g |-> managed, f |-> file, v |-> never, h |-> here, n |-> n], a |-> act',
                                   t |-> [g |-> managed', f |-> file', v |-> never', h |-> here', n |-> n']]))
=============================================================================
