--------------------------------- MODULE Jobs ---------------------------------
(* The life of one supervised job: created once, started once, writes chunks *)
(* to its outputs, ends, and is recorded.  Output reaches the files and, when *)
(* tracked, the submission messages in any portions but complete and in order.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxChunks, Emit
Streams == {"out", "err"}
(* line: a short line; part: no line end; crlf, empty; long: a line of 150 KB; burst: 300 lines *)
Shapes == {"line", "part", "crlf", "long", "burst"}
Ends == {"zero", "three", "killed", "held", "missing"}
Faults == {"none", "spec", "pid", "output", "exit"}
VARIABLES cfg, script, phase, file, pub, pending, msgs, faulted, pid, exit, runs, dup
vars == <<cfg, script, phase, file, pub, pending, msgs, faulted, pid, exit, runs, dup>>
Empty == [s \in Streams |-> <<>>]
Cfgs == {c \in [track : BOOLEAN, end : Ends, fault : Faults, hb : BOOLEAN] :
           /\ (c.fault = "output" => c.track)
           /\ (c.fault # "none" => c.end \in {"zero", "three"} /\ ~c.hb)
           /\ (c.hb => c.end = "zero")}
Init == /\ cfg \in Cfgs /\ script = <<>> /\ phase = "new" /\ file = Empty /\ pub = Empty /\ pending = Empty
        /\ msgs = <<>> /\ faulted = FALSE /\ pid = FALSE /\ exit = "none" /\ runs = 0 /\ dup = 0
Create == /\ phase \in {"new", "created"} /\ dup < 2
          /\ IF phase = "new" THEN phase' = "created" /\ UNCHANGED dup ELSE dup' = 2 /\ UNCHANGED phase   \* refused
          /\ UNCHANGED <<cfg, script, file, pub, pending, msgs, faulted, pid, exit, runs>>
(* the specification is announced first, a job that cannot be announced is not started *)
Start == /\ phase = "created"
         /\ IF cfg.fault = "spec" THEN phase' = "refused" /\ UNCHANGED <<msgs, runs, pid>>
            ELSE IF cfg.end = "missing" THEN phase' = "refused" /\ msgs' = <<"spec">> /\ UNCHANGED <<runs, pid>>
            ELSE phase' = "running" /\ runs' = runs + 1 /\ pid' = TRUE
                 /\ msgs' = IF cfg.fault = "pid" THEN <<"spec">> ELSE <<"spec", "pid">>
         /\ UNCHANGED <<cfg, script, file, pub, pending, faulted, exit, dup>>
(* a second start of the same job is refused *)
StartAgain == phase \in {"running", "recorded"} /\ UNCHANGED vars
Write(s, k) == /\ phase = "running" /\ Len(script) < MaxChunks
               /\ script' = Append(script, [s |-> s, k |-> k]) /\ file' = [file EXCEPT ![s] = Append(@, k)]
               /\ pending' = IF cfg.track THEN [pending EXCEPT ![s] = Append(@, k)] ELSE pending
               /\ UNCHANGED <<cfg, phase, pub, msgs, faulted, pid, exit, runs, dup>>
(* a portion of output is published; when that fails it is kept for later, *)
(* only the last portions can be lost that way                             *)
Publish(s) == /\ phase \in {"running", "ended"} /\ pending[s] # <<>>
              /\ IF cfg.fault = "output" /\ ~faulted THEN faulted' = TRUE /\ UNCHANGED <<pub, pending, msgs>>
                 ELSE /\ pub' = [pub EXCEPT ![s] = @ \o pending[s]] /\ pending' = [pending EXCEPT ![s] = <<>>]
                      /\ msgs' = IF s \in {msgs[i] : i \in 1..Len(msgs)} THEN msgs ELSE Append(msgs, s)
                      /\ UNCHANGED faulted
              /\ UNCHANGED <<cfg, script, phase, file, pid, exit, runs, dup>>
End == /\ phase = "running" /\ phase' = "ended" /\ UNCHANGED <<cfg, script, file, pub, pending, msgs, faulted, pid, exit, runs, dup>>
Record == /\ phase = "ended" /\ (pending = Empty \/ (cfg.fault = "output" /\ faulted)) /\ phase' = "recorded"
          /\ exit' = CASE cfg.end = "three" -> "3" [] cfg.end = "killed" -> "killed" [] OTHER -> "0"
          /\ msgs' = IF cfg.fault = "exit" THEN msgs ELSE Append(msgs, "exit")
          /\ UNCHANGED <<cfg, script, file, pub, pending, faulted, pid, runs, dup>>
Next == Create \/ Start \/ StartAgain \/ End \/ Record \/ \E s \in Streams : Publish(s) \/ \E k \in Shapes : Write(s, k)
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Once == runs <= 1
Complete == /\ \A s \in Streams : cfg.track => Prefix(pub[s] \o pending[s], file[s]) /\ Prefix(file[s], pub[s] \o pending[s])
            /\ (phase = "recorded" /\ cfg.track /\ cfg.fault # "output" => pub = file)
            /\ (~cfg.track => pub = Empty)
Order == /\ (msgs # <<>> => msgs[1] = "spec")
         /\ (phase = "recorded" /\ cfg.fault # "exit" => msgs[Len(msgs)] = "exit")
         /\ ("exit" \in {msgs[i] : i \in 1..Len(msgs)} => phase = "recorded")
EmitDone == ~Emit \/ phase \notin {"recorded", "refused"} \/
            PrintT("@@" \o ToJson([cfg |-> cfg, script |-> script, phase |-> phase, exit |-> exit, runs |-> runs, dup |-> dup]))
View == <<cfg, script, phase, file, pub, pending, faulted, pid, exit, runs, dup>>
=============================================================================
