--------------------------------- MODULE Host ---------------------------------
(* The autonomous agent host: directories a and b hold machine manifests, p is compiled in.  Every so often (a tick) *)
(* the host makes the running machines agree with the directories.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES content, \* what is in each directory
          run,     \* the version of the machine that runs for it
          st,      \* the state each machine is in
          over,    \* the walk ends here
          act
vars == <<content, run, st, over, act>>
View == <<content, run, st, over>>
Dirs == {"a", "b"}
Contents == {"absent", "nomanifest", "v1", "v2", "broken", "invalid", "slow"}
Loads == {"v1", "v2", "invalid", "slow"}   \* invalid ones load but their watchers cannot be made; slow ones start after a splay
Settle(c) == [d \in Dirs |-> IF c[d] \in Loads THEN c[d] ELSE "none"]
States(c, s) == [x \in Dirs \cup {"p"} |-> IF x = "p" THEN s[x]
                  ELSE IF Settle(c)[x] = "none" THEN "-" ELSE IF Settle(c)[x] = run[x] THEN s[x] ELSE "idle"]
Start == {"absent", "v1", "v2"}
Init == /\ content \in [Dirs -> Start] /\ run = Settle(content) /\ over = FALSE
        /\ st = [x \in Dirs \cup {"p"} |-> IF x = "p" \/ run[x] # "none" THEN "idle" ELSE "-"]
        /\ act = [x |-> "init"]
(* version one subscribes its go to that of p, and in b also to that of a *)
Hear(d, s, r, from) == r[d] = "v1" /\ s[d] = "idle" /\ (from = "p" \/ (from = "a" /\ d = "b"))
Spread(s, r, from) == LET one == [x \in DOMAIN s |-> IF x # "p" /\ Hear(x, s, r, from) THEN "on" ELSE s[x]]
                      IN IF one["a"] # s["a"] THEN [x \in DOMAIN s |-> IF x = "b" /\ Hear(x, one, r, "a") THEN "on" ELSE one[x]] ELSE one
Can(s, e) == IF e = "go" THEN s = "idle" ELSE s = "on"
Tick(c, storm) ==
  /\ ~over /\ content' = c /\ run' = Settle(c) /\ over' = FALSE
  /\ st' = (LET s == States(c, st) IN IF storm THEN Spread(s, Settle(c), "a") ELSE s)
  /\ act' = [x |-> "tick", storm |-> storm]
Edit(d, v) == [content EXCEPT ![d] = v]
Ticks == \/ \E d \in Dirs, v \in Contents : Tick(Edit(d, v), FALSE)
         \/ \E va, vb \in {"absent", "v1", "v2"} : Tick([a |-> va, b |-> vb], FALSE)
         \/ \E v \in {"absent", "v1", "v2"} : /\ run["a"] \in {"v1", "v2"} /\ v # content["a"] /\ content["a"] = run["a"] /\ run["b"] \in {"v1", "none"}
                                              /\ Tick(Edit("a", v), TRUE)
(* p moves while the host is busy replacing b and already loaded, but not started, a *)
Race == /\ ~over /\ content["a"] = "absent" /\ run["b"] \in {"v1", "v2"} /\ st["p"] = "idle"
        /\ content' = [a |-> "v1", b |-> IF content["b"] = "v1" THEN "v2" ELSE "v1"]
        /\ run' = Settle(content') /\ over' = TRUE
        /\ st' = [a |-> "any", b |-> "any", p |-> "on"]
        /\ act' = [x |-> "race"]
Running(d) == d = "p" \/ run[d] \in {"v1", "v2"}
Fire(d, by, e) ==
  /\ ~over /\ (d # "p" => run[d] # "invalid" /\ run[d] # "slow") /\ UNCHANGED <<content, run, over>>
  /\ LET ok == Running(d) /\ by \in {"name", "path", "id", "all"} /\ Can(st[d], e)
         s == [st EXCEPT ![d] = IF e = "go" THEN "on" ELSE "idle"]
     IN /\ st' = IF ~ok THEN st ELSE IF e = "go" THEN Spread(s, run, d) ELSE s
        /\ act' = [x |-> "fire", d |-> d, by |-> by, e |-> e, ok |-> ok]
Fires == \E d \in Dirs \cup {"p"}, by \in {"name", "path", "id", "all", "wrongversion", "wrongpath", "wrongid", "none"}, e \in {"go", "back"} :
            (by \in {"path", "id", "all", "wrongpath", "wrongid", "none"} => d = "a") /\ Fire(d, by, e)
Next == Ticks \/ Race \/ Fires
Spec == Init /\ [][Next]_vars
Agree == run = Settle(content)
Kept == [][act'.x = "tick" /\ ~act'.storm => \A d \in Dirs : run'[d] = run[d] => st'[d] = st[d]]_vars
F == [content |-> content, run |-> run, st |-> st, over |-> over]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
