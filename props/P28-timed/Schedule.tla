------------------------------- MODULE Schedule -------------------------------
(* A schedule watcher over a number of minutes.  Configurations list the minutes at which each cron expression     *)
(* starts; the model's time is the middle of a minute.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxT
VARIABLES cfg, t, in, cond, prev, trig, act
vars == <<cfg, t, in, cond, prev, trig, act>>
View == <<cfg, t, in, cond, prev, trig>>
(* starts: one set of minutes per schedule; d: duration in minutes; splay in minutes; unset: the duration is not configured *)
Cfgs == {[n |-> "one",      starts |-> <<{2}>>,              d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "twice",    starts |-> <<{1, 5}>>,           d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "everythird", starts |-> <<{3, 6}>>,         d |-> 1, splay |-> 0, unset |-> FALSE],
         [n |-> "overlap",  starts |-> <<{1, 6}, {2}>>,      d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "three",    starts |-> <<{1}, {2}, {3, 6}>>, d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "same",     starts |-> <<{2}, {2, 5}>>,      d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "self",     starts |-> <<{1, 2, 3, 6}>>,     d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "never",    starts |-> <<{}>>,               d |-> 2, splay |-> 0, unset |-> FALSE],
         [n |-> "date",     starts |-> <<{3}, {}>>,          d |-> 1, splay |-> 0, unset |-> FALSE],
         [n |-> "weekday",  starts |-> <<{4}, {}>>,          d |-> 1, splay |-> 0, unset |-> FALSE],
         [n |-> "default",  starts |-> <<{2, 4}>>,           d |-> 1, splay |-> 0, unset |-> TRUE],
         [n |-> "splay",    starts |-> <<{1, 6}>>,           d |-> 4, splay |-> 2, unset |-> FALSE],
         [n |-> "adjacent", starts |-> <<{1, 3}>>,           d |-> 2, splay |-> 0, unset |-> FALSE]}
Runs(c) == {<<s, m>> : s \in DOMAIN c.starts, m \in 0..MaxT} \cap UNION {{s} \X c.starts[s] : s \in DOMAIN c.starts}
Covers(c, r, m) == r[2] <= m /\ m < r[2] + c.d
On(c, m) == \E r \in Runs(c) : Covers(c, r, m)
Certain(c, m) == ~\E r \in Runs(c) : r[2] <= m /\ m < r[2] + c.splay
Glitch(c, m) == On(c, m) /\ On(c, m + 1) /\ ~\E r \in Runs(c) : Covers(c, r, m) /\ Covers(c, r, m + 1)
(* what one check of the watcher does: <<event, prev, trig>> *)
Watch(i, c, p, g) ==
  IF ~i THEN <<"none", "skipped", g>>
  ELSE IF p = c THEN <<"none", p, g>>
  ELSE IF c # "on" THEN <<"fail", c, FALSE>>
  ELSE IF cfg.skip /\ g THEN <<"none", c, g>>
  ELSE <<"succ", c, TRUE>>
Step(x, m, i, c) ==
  LET g == IF c = "off" THEN FALSE ELSE trig
      w == Watch(i, c, prev, g)
      leaves == w[1] \in cfg.leave
  IN /\ t' = m /\ cond' = c /\ in' = (i /\ ~leaves)
     /\ prev' = (IF leaves THEN "skipped" ELSE w[2])
     /\ trig' = w[3] /\ UNCHANGED cfg
     /\ act' = [x |-> x, ev |-> w[1], certain |-> Certain(cfg.c, m), glitch |-> x = "tick" /\ Glitch(cfg.c, t) /\ i]
Init == /\ cfg \in [c : Cfgs, skip : BOOLEAN, leave : {{}, {"succ"}, {"succ", "fail"}}]
        /\ (cfg.c.n = "adjacent" => ~cfg.skip /\ cfg.leave = {})
        /\ t = 0 /\ in \in BOOLEAN /\ cond = "unknown" /\ trig = FALSE /\ prev = (IF in THEN "unknown" ELSE "skipped")
        /\ act = [x |-> "init"]
Tick == /\ t < MaxT
        /\ Step("tick", t + 1, in, IF ~Certain(cfg.c, t + 1) THEN cond
                                   ELSE IF On(cfg.c, t + 1) THEN "on" ELSE IF cond = "unknown" THEN "unknown" ELSE "off")
Enter == ~in /\ Certain(cfg.c, t) /\ Step("enter", t, TRUE, cond)
Leave == in /\ Certain(cfg.c, t) /\ Step("leave", t, FALSE, cond)
Other == Certain(cfg.c, t) /\ Step("other", t, in, cond)
Next == Tick \/ Enter \/ Leave \/ Other
Spec == Init /\ [][Next]_vars
(* events follow the schedule and are never fired while not in the watched states *)
Sound == [][/\ (act'.ev = "succ" => On(cfg.c, t') /\ (in \/ act'.x = "enter"))
            /\ (act'.ev = "fail" => ~On(cfg.c, t') /\ (in \/ act'.x = "enter"))]_vars
OncePerChange == [][act'.ev # "none" /\ act'.x = "tick" => prev # cond']_vars
SkipOnce == [][cfg.skip /\ act'.ev = "succ" => ~trig]_vars
F == [cfg |-> [n |-> cfg.c.n, skip |-> cfg.skip, leave |-> cfg.leave, d |-> cfg.c.d, splay |-> cfg.c.splay, unset |-> cfg.c.unset], t |-> t, in |-> in, cond |-> cond, prev |-> prev, trig |-> trig]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
