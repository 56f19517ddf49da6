-------------------------------- MODULE Gossip --------------------------------
(* A gossip watcher announces a service: once when its machine comes into the watched states and once per interval   *)
(* for as long as it stays there.  Every transition of the machine is notified to the watcher; `settle` says whether *)
(* the watcher gets to run before the next thing happens (notifications coalesce otherwise).                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES cfg,    \* [iv: how the interval is given, reg: a registration or a subject and payload, ttl]
          in,     \* is the machine in a watched state
          on,     \* the announcer: "no", "0" announced just now, "1" half an interval ago, "?" some time within the interval
          alive,  \* the watcher runs
          quiet,  \* did the previous action leave the watcher settled
          was,    \* was the announcer running when the watcher last settled
          flips,  \* did the machine leave the states since
          ents,   \* how often did it come into them since
          conn,   \* is there a connection to the network
          gen,    \* what the templates resolve to
          act
vars == <<cfg, in, on, alive, quiet, was, flips, ents, conn, gen, act>>
View == <<cfg, in, on, alive, quiet, was, flips, ents, conn, gen>>
(* lo..hi announcements, next: the announcer as it must be *)
A(x, settle, lo, hi) == [x |-> x, settle |-> settle, lo |-> lo, hi |-> hi]
N(n) == IF conn THEN n ELSE 0
Init == /\ cfg \in [iv : {"set", "default", "short"}, reg : {"none", "reg", "prefix"}, ttl : BOOLEAN]
        /\ cfg.iv = "set" \/ (cfg.reg = "none" /\ cfg.ttl)
        /\ in \in BOOLEAN /\ alive = TRUE /\ quiet = TRUE /\ conn \in BOOLEAN /\ gen = 0 /\ flips = FALSE /\ ents = 0
        /\ on = (IF in THEN "0" ELSE "no") /\ was = in
        /\ act = A("init", TRUE, IF conn /\ in THEN 1 ELSE 0, IF conn /\ in THEN 1 ELSE 0)
Move(x, to, settle) ==
  /\ alive /\ in' = to /\ quiet' = settle /\ UNCHANGED <<cfg, alive, conn, gen>>
  /\ LET left == flips \/ ~to
         n == ents + (IF ~in /\ to THEN 1 ELSE 0)
     IN /\ n <= 2 /\ ents' = (IF settle THEN 0 ELSE n)
        /\ IF settle
           THEN /\ flips' = FALSE /\ was' = to
                /\ IF ~to THEN on' = "no" /\ act' = A(x, TRUE, 0, N(n))   \* a stay too short to be noticed need not be announced
                   ELSE IF ~was THEN on' = "0" /\ act' = A(x, TRUE, N(1), N(n))
                   ELSE IF ~left THEN on' = on /\ act' = A(x, TRUE, 0, 0)
                   ELSE on' = "?" /\ act' = A(x, TRUE, 0, N(n))            \* left and back unnoticed: announced anew or going on as before
           ELSE flips' = left /\ was' = was /\ on' = on /\ act' = A(x, FALSE, 0, 0)
Enter(s) == ~in /\ Move("enter", TRUE, s)
Leave(s) == in /\ Move("leave", FALSE, s)
Other(s) == Move("other", in, s)     \* a transition between two watched or two other states
Full == /\ quiet /\ UNCHANGED <<cfg, in, on, alive, quiet, was, flips, ents, conn, gen>>
        /\ act' = (IF on = "no" THEN A("full", TRUE, 0, 0) ELSE A("full", TRUE, N(1), N(1)))
Half == /\ quiet /\ on /= "?" /\ UNCHANGED <<cfg, in, alive, quiet, was, flips, ents, conn, gen>>
        /\ on' = (CASE on = "0" -> "1" [] on = "1" -> "0" [] OTHER -> on)
        /\ act' = (IF on = "1" THEN A("half", TRUE, N(1), N(1)) ELSE A("half", TRUE, 0, 0))
Stop(x) == alive /\ quiet /\ alive' = FALSE /\ on' = "no" /\ was' = FALSE /\ UNCHANGED <<cfg, in, quiet, flips, ents, conn, gen>> /\ act' = A(x, TRUE, 0, 0)
Connect == quiet /\ ~conn /\ conn' = TRUE /\ UNCHANGED <<cfg, in, on, alive, quiet, was, flips, ents, gen>> /\ act' = A("connect", TRUE, 0, 0)
Change == quiet /\ alive /\ gen' = 1 - gen /\ UNCHANGED <<cfg, in, on, alive, quiet, was, flips, ents, conn>> /\ act' = A("change", TRUE, 0, 0)
Next == \/ \E s \in BOOLEAN : Enter(s) \/ Leave(s) \/ Other(s)
        \/ Full \/ Half \/ Stop("delete") \/ Stop("cancel") \/ Connect \/ Change
Spec == Init /\ [][Next]_vars
OnlyInside == [][act'.lo > 0 => in' /\ alive' /\ conn]_vars
NeverOutside == [][(~in /\ ~in' /\ quiet) => (act'.hi = 0)]_vars
AlwaysInside == (in /\ alive /\ quiet) => on /= "no"
AtMostOne == [][quiet => act'.hi <= 1]_vars
F == [cfg |-> cfg, in |-> in, on |-> on, alive |-> alive, quiet |-> quiet, was |-> was, flips |-> flips, ents |-> ents, conn |-> conn, gen |-> gen]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
