-------------------------------- MODULE Chain --------------------------------
(* A machine whose exec watchers drive it from state to state: only the     *)
(* watchers of the current state run, each once per visit.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES s, log, evs, res
vars == <<s, log, evs, res>>
Init == s = "start" /\ log = <<>> /\ evs = <<>> /\ res = <<>>
Fire(e, d) == evs' = Append(evs, e) /\ s' = d
W == [a |-> "wa", b |-> "wb", c |-> "wc"]
Ok == [a |-> <<"ab", "b">>, b |-> <<"ba", "a">>, c |-> <<"ca", "a">>]
Bad == [a |-> <<"fail", "c">>, b |-> <<"fail", "c">>, c |-> <<"stop", "done">>]
Go == s = "start" /\ Fire("go", "a") /\ UNCHANGED <<log, res>>
Run(r) == /\ s \in {"a", "b", "c"} /\ (Len(res) < Depth \/ r = "fail")
          /\ log' = Append(log, W[s]) /\ res' = Append(res, r)
          /\ LET x == IF r = "ok" THEN Ok[s] ELSE Bad[s] IN Fire(x[1], x[2])
Next == Go \/ \E r \in {"ok", "fail"} : Run(r)
Spec == Init /\ [][Next]_vars
OneEach == Len(evs) = Len(log) + (IF s = "start" THEN 0 ELSE 1)
Emit == s = "done" => PrintT("@@" \o ToJson([log |-> log, evs |-> evs, res |-> res]))
=============================================================================
