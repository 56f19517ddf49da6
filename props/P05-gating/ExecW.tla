-------------------------------- MODULE ExecW --------------------------------
(* One exec watcher: what each check does.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES cfg, k, n, act
vars == <<cfg, k, n, act>>
View == <<cfg, k, n>>
Cfgs == [ok : {"", "good"}, fail : {"", "bad"}, suppress : BOOLEAN, mode : {"plain", "data", "disown"}]
Init == cfg \in Cfgs /\ k = "absent" /\ n = 0 /\ act = [n |-> "init"]
Cmds == {"true", "exit3", "json1", "json2", "missing", "empty", "badquote", "slow"}
(* runs: was the command executed; good: did it succeed *)
Runs(c) == c \in {"true", "exit3", "json1", "json2", "slow"}
Good(c) == /\ Runs(c) /\ c # "exit3"
           /\ (cfg.mode # "disown" => c # "slow")      \* disowned commands have no time limit
           /\ (cfg.mode = "data" => c \in {"json1", "json2"})
Check(here, dep, c) ==
  LET active == here /\ dep = "ready"
      good == active /\ Good(c)
      bad == active /\ ~Good(c)
  IN /\ n < Depth /\ n' = n + 1
     /\ k' = IF good /\ cfg.mode = "data" THEN (IF c = "json1" THEN "v1" ELSE "v2") ELSE k
     /\ act' = [here |-> here, dep |-> dep, c |-> c, ran |-> active /\ Runs(c),
                ev |-> IF good /\ cfg.ok # "" THEN <<cfg.ok>> ELSE IF bad /\ cfg.fail # "" THEN <<cfg.fail>> ELSE <<>>,
                note |-> bad \/ (good /\ ~cfg.suppress),
                out |-> IF good THEN "success" ELSE IF bad THEN "error" ELSE "skipped"]
     /\ UNCHANGED cfg
Next == \E here \in BOOLEAN, dep \in {"ready", "bad", "gone"}, c \in Cmds : (c = "slow" => here /\ dep = "ready") /\ Check(here, dep, c)
Spec == Init /\ [][Next]_vars
Quiet == [][~act'.here \/ act'.dep # "ready" => ~act'.ran /\ act'.ev = <<>> /\ ~act'.note /\ k' = k]_vars
OneEvent == [][Len(act'.ev) <= 1 /\ (act'.ev # <<>> => act'.ev[1] # "")]_vars
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [c |-> cfg, k |-> k, n |-> n], a |-> act', t |-> [c |-> cfg', k |-> k', n |-> n']]))
=============================================================================
