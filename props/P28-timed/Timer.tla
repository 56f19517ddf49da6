-------------------------------- MODULE Timer --------------------------------
(* A timer watcher: it runs one timer per stay of its machine in the watched states and fires one event when the   *)
(* timer expires before the machine leaves.  Every transition of the machine is notified to the watcher; `settle`  *)
(* says whether the watcher gets to run before the next thing happens (notifications coalesce otherwise).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES cfg,    \* [splay: random timer up to the maximum]
          in,     \* is the machine in a watched state
          run,    \* "no", "0" just started, "1" half way
          alive,  \* the watcher runs
          quiet,  \* did the previous action leave the watcher settled
          act
vars == <<cfg, in, run, alive, quiet, act>>
View == <<cfg, in, run, alive, quiet>>
A(x, settle, ev) == [x |-> x, settle |-> settle, ev |-> ev]
Init == /\ cfg \in [splay : BOOLEAN, small : BOOLEAN] /\ in \in BOOLEAN /\ alive = TRUE /\ quiet = TRUE
        /\ run = (IF in THEN "0" ELSE "no") /\ act = A("init", TRUE, 0)
Move(x, to, settle) ==
  /\ alive /\ in' = to /\ quiet' = settle /\ UNCHANGED <<cfg, alive>>
  /\ run' = (IF to THEN "0" ELSE "no")
  /\ act' = A(x, settle, 0)
Enter(s) == ~in /\ Move("enter", TRUE, s)
Leave(s) == in /\ Move("leave", FALSE, s)
Other(s) == Move("other", in, s)     \* a transition between two watched or two other states
Pass(half) ==
  /\ quiet /\ (half => ~cfg.splay) /\ UNCHANGED <<cfg, in, alive, quiet>>
  /\ LET fires == run /= "no" /\ (~half \/ run = "1")
     IN /\ run' = (IF fires THEN "no" ELSE IF run = "0" THEN "1" ELSE run)
        /\ act' = A(IF half THEN "half" ELSE "full", TRUE, IF fires THEN 1 ELSE 0)
Stop(x) == alive /\ quiet /\ alive' = FALSE /\ run' = "no" /\ UNCHANGED <<cfg, in, quiet>> /\ act' = A(x, TRUE, 0)
Next == \/ \E s \in BOOLEAN : Enter(s) \/ Leave(s) \/ Other(s)
        \/ Pass(TRUE) \/ Pass(FALSE) \/ Stop("delete") \/ Stop("cancel")
Spec == Init /\ [][Next]_vars
FiresOnlyInside == [][act'.ev > 0 => in /\ alive /\ run /= "no"]_vars
OncePerStay == [][act'.ev > 0 => run' = "no"]_vars
NoneOutside == ~in => run = "no"
F == [cfg |-> cfg, in |-> in, run |-> run, alive |-> alive, quiet |-> quiet]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
