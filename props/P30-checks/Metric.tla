------------------------------- MODULE Metric -------------------------------
(* The metric watcher: the last good output of the program is what is reported over HTTP, announced,     *)
(* exported to Prometheus and stored as machine data; a program that fails or says nothing usable        *)
(* changes none of that.                                                                                  *)
EXTENDS Naturals, Sequences, TLC, Json

VARIABLES last, act

Progs == {"json", "json2", "jsonnull", "jsonnone", "jsonlabels", "jsonbad", "jsontype", "perf", "nan", "silent", "fail", "failperf", "missing", "blank", "slow", "slowchild"}

M(f, m, l) == [f |-> f, m |-> m, l |-> l]
X(k, v) == [k |-> k, v |-> v]
(* format, metrics, labels of the output itself *)
Good(p) == CASE p = "json"       -> M("choria", <<X("v1", "1"), X("v2", "1.5")>>, <<X("unique", "u")>>)
             [] p = "json2"      -> M("choria", <<X("v1", "3")>>, <<>>)
             [] p = "jsonnull"   -> M("choria", <<>>, <<>>)
             [] p = "jsonnone"   -> M("choria", <<>>, <<>>)
             [] p = "jsonlabels" -> M("choria", <<X("v3", "4")>>, <<X("dupe", "mine")>>)
             [] p = "perf"       -> M("nagios", <<X("load1", "0.5"), X("load5", "2")>>, <<>>)
             [] p = "nan"        -> M("nagios", <<X("ok", "7")>>, <<>>)
             [] p = "silent"     -> M("nagios", <<>>, <<>>)
             [] OTHER            -> M("none", <<>>, <<>>)

Init == last = "none" /\ act = [p |-> "init", good |-> M("none", <<>>, <<>>), bad |-> FALSE]
Run(p) ==
    /\ last' = IF Good(p).f = "none" THEN last ELSE p
    /\ act' = [p |-> p, good |-> Good(last'), fresh |-> Good(p).f # "none", bad |-> p \in {"jsonbad", "jsontype"}]
Next == \E p \in Progs : Run(p)
Spec == Init /\ [][Next]_<<last, act>>

(* what is kept is the output of some program that succeeded *)
Kept == last = "none" \/ Good(last).f # "none"
View == last
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> last, a |-> act', t |-> last']))
=============================================================================
