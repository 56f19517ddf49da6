------------------------------- MODULE Replies -------------------------------
(* One request of the RPC client: the targets are addressed batch after     *)
(* batch; replies, duplicates, replies of strangers and unreadable replies  *)
(* arrive in any order; a batch ends when all its nodes replied, when the   *)
(* timeout passes or when the caller gives up.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes, MaxDeliver, Emit
Node == [i \in 1..MaxNodes |-> "n" \o ToString(i)]
Stranger == "x"
(* ok, fail: RPC replies; badrpc: a reply whose body is no RPC reply; garbage: not even a reply *)
Kinds == {"ok", "fail", "badrpc"}
Modes == {"normal", "noreply", "service"}
VARIABLES cfg, next, cur, out, unexp, ok, failed, got, handled, script, phase, ended
vars == <<cfg, next, cur, out, unexp, ok, failed, got, handled, script, phase, ended>>
Targets(c) == {Node[i] : i \in 1..c.n}
Size(c) == IF c.batch = 0 THEN c.n ELSE c.batch
Upto(c, i) == IF i + Size(c) - 1 > c.n THEN c.n ELSE i + Size(c) - 1
Cfgs == {c \in [n : 0..MaxNodes, batch : 0..MaxNodes, workers : {0, 1, 3}, late : BOOLEAN, expr : BOOLEAN, mode : Modes] :
           /\ c.batch <= c.n /\ (c.batch = 0 => ~c.late)
           /\ (c.mode = "service") <=> (c.n = 0)
           /\ (c.mode = "noreply" => ~c.expr /\ c.workers = 0)
           /\ (c.mode = "service" => c.workers # 1)}
Init == /\ cfg \in Cfgs /\ next = 1 /\ cur = {} /\ out = {} /\ unexp = {} /\ ok = 0 /\ failed = 0 /\ got = {}
        /\ handled = <<>> /\ script = <<>> /\ phase = "idle" /\ ended = ""
Last == cfg.mode = "service" \/ next > cfg.n
(* ---- addressing a batch: every target is in exactly one ---- *)
Publish == /\ phase = "idle" /\ cfg.mode # "service" /\ next <= cfg.n
           /\ LET e == Upto(cfg, next) b == {Node[i] : i \in next..e} IN
              /\ cur' = b /\ out' = b /\ next' = e + 1 /\ script' = Append(script, [e |-> "publish", s |-> "", k |-> "", to |-> b])
           /\ phase' = IF cfg.mode = "noreply" THEN "idle" ELSE "waiting"
           /\ ended' = IF cfg.mode = "noreply" THEN "sent" ELSE ""
           /\ UNCHANGED <<cfg, unexp, ok, failed, got, handled>>
PublishService == /\ phase = "idle" /\ cfg.mode = "service" /\ next = 1 /\ next' = 2 /\ phase' = "waiting"
                  /\ script' = Append(script, [e |-> "publish", s |-> "", k |-> "", to |-> {}])
                  /\ UNCHANGED <<cfg, cur, out, unexp, ok, failed, got, handled, ended>>
Deliveries == Cardinality({i \in 1..Len(script) : script[i].e = "deliver"})
Count(s, k) == IF k = "ok" THEN ok' = ok + 1 /\ failed' = failed ELSE ok' = ok /\ failed' = failed + 1
Deliver(s, k) ==
  /\ phase = "waiting" /\ Deliveries < MaxDeliver
  /\ script' = Append(script, [e |-> "deliver", s |-> s, k |-> k, to |-> {}])
  /\ Count(s, k)
  /\ handled' = IF k \in {"ok", "fail"} THEN Append(handled, [s |-> s, shown |-> ~cfg.expr \/ k = "ok"]) ELSE handled
  /\ IF cfg.mode = "service"
     THEN /\ got' = {s} /\ phase' = "idle" /\ ended' = "all" /\ UNCHANGED <<out, unexp>>
     ELSE /\ out' = out \ {s} /\ got' = got \cup ({s} \cap out) /\ unexp' = unexp \cup ({s} \ out)
          /\ phase' = IF out \ {s} = {} THEN "idle" ELSE "waiting"
          /\ ended' = IF out \ {s} = {} THEN "all" ELSE ""
  /\ UNCHANGED <<cfg, next, cur>>
Garbage == /\ phase = "waiting" /\ Deliveries < MaxDeliver
           /\ script' = Append(script, [e |-> "deliver", s |-> "", k |-> "garbage", to |-> {}])
           /\ failed' = failed + 1 /\ UNCHANGED <<cfg, next, cur, out, unexp, ok, got, handled, phase, ended>>
Give(why) == /\ phase = "waiting" /\ (why = "cancel" => Last)
             /\ ~\E i \in 1..Len(script) : script[i].e = "deadline"
             /\ phase' = "idle" /\ ended' = why /\ script' = Append(script, [e |-> why, s |-> "", k |-> "", to |-> {}])
             /\ UNCHANGED <<cfg, next, cur, out, unexp, ok, failed, got, handled>>
Done == phase = "idle" /\ (IF cfg.mode = "service" THEN next = 2 ELSE next > cfg.n)
Senders == IF cfg.mode = "service" THEN {Stranger} ELSE cur \cup {Stranger}
Next == \/ Publish \/ PublishService \/ Garbage \/ Give("deadline") \/ Give("cancel")
        \/ \E s \in Senders, k \in Kinds : (cfg.mode = "service" => k # "badrpc") /\ Deliver(s, k)
Spec == Init /\ [][Next]_vars

NoResponse == Targets(cfg) \ got
Delivered(P(_)) == Cardinality({i \in 1..Len(script) : script[i].e = "deliver" /\ P(script[i])})
(* every reply is counted once, every node is in exactly one of replied / no response *)
Accounting == /\ ok + failed = Delivered(LAMBDA r : TRUE)
              /\ Len(handled) = Delivered(LAMBDA r : r.k \in {"ok", "fail"})
              /\ ok = Delivered(LAMBDA r : r.k = "ok")
              /\ (cfg.mode # "service" => got \subseteq Targets(cfg))
              /\ (Done /\ cfg.mode = "normal" => (NoResponse = {}) <=> \A i \in 1..Len(script) : script[i].e \notin {"deadline", "cancel"})
              /\ \A i, j \in 1..Len(script) : i # j => script[i].to \cap script[j].to = {}
              /\ (Done /\ cfg.mode # "service" => UNION {script[i].to : i \in 1..Len(script)} = Targets(cfg))
(* nothing but the reply of the last missing node, the deadline or the caller ends a batch *)
Ends == [][phase = "waiting" /\ phase' = "idle" => \/ script'[Len(script')].e \in {"deadline", "cancel"}
                                                    \/ cfg.mode = "service" \/ out' = {}]_vars
EmitDone == ~Emit \/ ~Done \/ PrintT("@@" \o ToJson([cfg |-> cfg, script |-> script, ok |-> ok, failed |-> failed, got |-> got,
                    none |-> IF cfg.mode = "service" THEN {} ELSE NoResponse, unexp |-> unexp, handled |-> handled, ended |-> ended]))
=============================================================================
