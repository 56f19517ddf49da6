-------------------------------- MODULE ExprW --------------------------------
(* One expression watcher: success_when and fail_when over machine data,    *)
(* events only when the outcome changes.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES cfg, prev, n, act
vars == <<cfg, prev, n, act>>
View == <<cfg, prev, n>>
Init == cfg \in {"both", "success", "fail"} /\ prev = "skipped" /\ n = 0 /\ act = [n |-> "init"]
(* data.s drives success_when, data.f drives fail_when; "junk" makes the expression fail *)
Check(here, s, f) ==
  LET sw == cfg \in {"both", "success"} fw == cfg \in {"both", "fail"}
      out == IF ~here THEN "skipped"
             ELSE IF sw /\ s = "junk" THEN "error"
             ELSE IF sw /\ s = "yes" THEN "success_when"
             ELSE IF fw /\ f = "junk" THEN "error"
             ELSE IF fw /\ f = "yes" THEN "failed_when" ELSE "no_match"
  IN /\ n < Depth /\ n' = n + 1 /\ prev' = out
     /\ act' = [here |-> here, s |-> s, f |-> f, out |-> out,
                ev |-> IF out = prev THEN <<>> ELSE IF out = "success_when" THEN <<"good">> ELSE IF out = "failed_when" THEN <<"bad">> ELSE <<>>,
                note |-> out \in {"success_when", "failed_when", "error"}]
     /\ UNCHANGED cfg
Next == \E h \in BOOLEAN, s, f \in {"yes", "no", "junk"} : Check(h, s, f)
Spec == Init /\ [][Next]_vars
Quiet == [][~act'.here => act'.ev = <<>> /\ ~act'.note]_vars
OnChange == [][act'.ev # <<>> => prev' # prev]_vars
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [c |-> cfg, p |-> prev, n |-> n], a |-> act', t |-> [c |-> cfg', p |-> prev', n |-> n']]))
=============================================================================
