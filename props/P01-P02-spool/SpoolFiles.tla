----------------------------- MODULE SpoolFiles -----------------------------
(* Trace specification: the file operations the spool performs, recorded   *)
(* with inotify from the real code, must keep every queued message whole   *)
(* at every point where a crash could stop the process.                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, files, gone, bad
vars == <<t, i, files, gone, bad>>
(* files: name -> "open" (being written: torn if we stop here) | "whole"    *)
Init == t \in 1..Len(Traces) /\ i = 1 /\ files = [x \in {} |-> ""] /\ gone = {} /\ bad = ""
Put(f, v) == [x \in DOMAIN files \cup {f} |-> IF x = f THEN v ELSE files[x]]
Del(f) == [x \in DOMAIN files \ {f} |-> files[x]]
Ev == Traces[t][i]
Step ==
  /\ bad = "" /\ i <= Len(Traces[t]) /\ i' = i + 1 /\ t' = t
  /\ LET f == Ev.f IN
     CASE Ev.op = "create" ->
            /\ files' = Put(f, "open") /\ gone' = gone
            /\ bad' = IF Ev.q THEN "queued file created before its content" ELSE ""
       [] Ev.op = "modify" ->
            /\ files' = Put(f, "open") /\ gone' = gone
            /\ bad' = IF Ev.q THEN "queued file changed in place" ELSE ""
       [] Ev.op = "close" -> files' = Put(f, "whole") /\ gone' = gone /\ bad' = ""
       [] Ev.op = "from" -> /\ files' = Del(f)
                            /\ gone' = IF Ev.q THEN gone \cup {f} ELSE gone
                            /\ bad' = ""
       [] Ev.op = "to" ->
            /\ files' = Put(f, "whole") /\ gone' = gone
            /\ bad' = IF Ev.q /\ Ev.src # "" /\ Ev.src \in DOMAIN files /\ files[Ev.src] = "open"
                         THEN "file queued while still being written"
                      ELSE IF f \in gone THEN "queued file was absent before its replacement" ELSE ""
       [] Ev.op = "delete" -> files' = Del(f) /\ gone' = (IF Ev.q THEN gone \cup {f} ELSE gone) /\ bad' = ""
       [] OTHER -> UNCHANGED <<files, gone, bad>>
Next == Step
Spec == Init /\ [][Next]_vars
Whole == bad = ""
(* every trace is explored to its end, torn ones are reported              *)
Report == (bad = "" \/ PrintT("@@" \o ToJson([t |-> t, i |-> i, bad |-> bad])))
=============================================================================
