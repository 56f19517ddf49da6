------------------------------- MODULE ExtRun -------------------------------
(* One request for an external agent: validated, handed to its program, answered with what the program said. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES r, pc, ran, status
vars == <<r, pc, ran, status>>
Inputs == {"ok", "all", "unsafe", "long", "wrong", "missing", "extra", "text", "nodata"}
Valid == {"ok", "all"}
Exits == {"0", "1", "77", "sig", "slow"}
(* what is in the reply file *)
Replies == {"data", "full", "nulldata", "none", "garbage", "half", "list", "text", "status1", "status4", "status5", "status99", "badstatus"}
Said == {"data", "full", "nulldata", "status1", "status4", "status5", "status99"}
Outputs == {"quiet", "lines", "long", "errlong", "huge", "child", "binary"}
Row(i, p, x, y, o) == [input |-> i, prog |-> p, exit |-> x, reply |-> y, out |-> o]
Rows == {Row(i, "ok", "0", y, o) : i \in Valid, y \in Replies, o \in Outputs}
        \cup {Row(i, p, x, "full", "quiet") : i \in Inputs, p \in {"ok", "missing", "noexec", "directory"}, x \in {"0", "1"}}
        \cup {Row("ok", "ok", x, y, o) : x \in Exits, y \in {"data", "none"}, o \in {"quiet", "long", "child"}}
Init == r \in Rows /\ pc = "validate" /\ ran = 0 /\ status = "OK"
Stop(s) == pc' = "done" /\ status' = s /\ UNCHANGED <<r, ran>>
Validate == pc = "validate" /\ (IF r.prog # "ok" \/ r.input \notin Valid THEN Stop("Aborted") ELSE pc' = "run" /\ UNCHANGED <<r, ran, status>>)
Run == pc = "run" /\ pc' = "read" /\ ran' = ran + 1 /\ UNCHANGED <<r, status>>
StatusOf == CASE r.reply = "status1" -> "Aborted" [] r.reply = "status4" -> "InvalidData" [] r.reply = "status5" -> "UnknownError" [] r.reply = "status99" -> "other" [] OTHER -> "OK"
Read == pc = "read" /\ (IF r.exit = "0" /\ r.reply \in Said THEN Stop(StatusOf) ELSE Stop("Aborted"))
Next == Validate \/ Run \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Told == r.exit = "0" /\ r.reply \in Said /\ ran = 1
(* outputs of the reply; those not given get their defaults *)
Data == IF ~Told THEN "any" ELSE IF r.reply \in {"full"} THEN "full" ELSE IF r.reply = "nulldata" THEN "defaults" ELSE "data"
----
OnlyValid == ran > 0 => r.input \in Valid /\ r.prog = "ok"
Once == ran <= 1
(* success is only ever reported for a program that succeeded and said so *)
OkTold == pc = "done" /\ status = "OK" => Told
Answered == <>(pc = "done")
Emit == pc = "done" => PrintT("@@" \o ToJson([r |-> r, ran |-> ran, status |-> status, data |-> Data, told |-> Told]))
=============================================================================
