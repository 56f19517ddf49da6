--------------------------------- MODULE Kv ---------------------------------
(* A key-value watcher: the bucket, what the machine holds of it, what the watcher has seen. *)
(* Mode "poll": the store is read when the watcher is active and its interval passed; mode "repub": updates *)
(* of the bucket reach a running, active watcher as messages, only the first read at start is a poll. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Vals, MaxRev
VARIABLES opt,     \* [get |-> on_successful_get, match |-> on_matching_update]
          bucket,  \* whether the bucket exists
          val,     \* value of the key, "none" when there is none
          rev,     \* last revision of the bucket
          krev,    \* revision of the key
          data,    \* the machine data item, "none" when there is none
          seen,    \* revision last seen in this life of the watcher, 0 when none
          polled,  \* an interval is running
          bound,   \* the watcher found its bucket in this life
          act
vars == <<opt, bucket, val, rev, krev, data, seen, polled, bound, act>>
View == <<opt, bucket, val, rev, krev, data, seen, polled, bound>>
None == "none"
Init == /\ opt \in [get : BOOLEAN, match : BOOLEAN] /\ bucket = (Mode = "repub") /\ val = None /\ rev = 0 /\ krev = 0 /\ data = None /\ seen = 0 /\ polled = FALSE /\ bound = FALSE
        /\ act = [x |-> "init"]
Create == Mode = "poll" /\ ~bucket /\ bucket' = TRUE /\ act' = [x |-> "create", ev |-> ""] /\ UNCHANGED <<opt, val, rev, krev, data, seen, polled, bound>>
Remove == Mode = "poll" /\ bucket /\ bucket' = FALSE /\ val' = None /\ rev' = 0 /\ krev' = 0 /\ act' = [x |-> "remove", ev |-> ""] /\ UNCHANGED <<opt, data, seen, polled, bound>>
(* what seeing value v of revision n leads to; n = 0 when there is no value *)
Event(v, n) == IF v = None THEN (IF data = None THEN "" ELSE "success")
               ELSE IF v /= data THEN "success"
               ELSE IF opt.match /\ seen > 0 /\ n > seen THEN "success"
               ELSE IF opt.get THEN "success" ELSE ""
See(v, n) == data' = v /\ seen' = IF v = None THEN (IF Mode = "repub" /\ n > 0 THEN (IF data = None THEN seen ELSE n) ELSE (IF data = None THEN seen ELSE 0)) ELSE n
Poll(label) == IF ~bucket THEN /\ act' = [x |-> label, ev |-> "fail"] /\ UNCHANGED <<data>> /\ seen' = seen
               ELSE /\ act' = [x |-> label, ev |-> Event(val, krev)] /\ See(val, IF val = None THEN 0 ELSE krev)
Due == Mode = "poll" /\ Poll("poll") /\ polled' = (polled \/ bucket \/ bound) /\ bound' = (bound \/ bucket) /\ UNCHANGED <<opt, bucket, val, rev, krev>>
(* the machine data cannot be changed: nothing was seen, the next look tries again *)
NoStore == /\ Mode = "poll" /\ bucket /\ val /= data
           /\ act' = [x |-> "nostore", ev |-> "fail"] /\ polled' = TRUE /\ bound' = TRUE
           /\ UNCHANGED <<opt, bucket, val, rev, krev, data, seen>>
(* nothing happens while the interval has not passed, nor while inactive *)
Soon == Mode = "poll" /\ polled /\ act' = [x |-> "soon", ev |-> ""] /\ UNCHANGED <<opt, bucket, val, rev, krev, data, seen, polled, bound>>
Idle == Mode = "poll" /\ act' = [x |-> "idle", ev |-> ""] /\ UNCHANGED <<opt, bucket, val, rev, krev, data, seen, polled, bound>>
Write(v, on, x) == /\ bucket /\ rev < MaxRev /\ rev' = rev + 1
                   /\ val' = v /\ krev' = rev + 1
                   /\ IF Mode = "repub" /\ on
                      THEN /\ act' = [x |-> x, v |-> v, on |-> on, ev |-> Event(v, rev + 1)] /\ See(v, rev + 1)
                      ELSE act' = [x |-> x, v |-> v, on |-> on, ev |-> ""] /\ UNCHANGED <<data, seen>>
                   /\ UNCHANGED <<opt, bucket, polled, bound>>
Put == \E v \in Vals, on \in (IF Mode = "repub" THEN BOOLEAN ELSE {FALSE}) : Write(v, on, "put")
Del == \E on \in (IF Mode = "repub" THEN BOOLEAN ELSE {FALSE}) : \E x \in {"del", "purge"} : val /= None /\ Write(None, on, x)
(* a new watcher over the same machine data *)
Restart == \E on \in BOOLEAN :
             /\ IF on THEN /\ data' = (IF bucket THEN val ELSE data)
                           /\ seen' = (IF bucket /\ val /= None THEN krev ELSE 0)
                           /\ polled' = bucket /\ bound' = bucket
                           /\ act' = [x |-> "restart", on |-> on, ev |-> IF ~bucket THEN "fail"
                                        ELSE IF val /= data THEN "success" ELSE IF val /= None /\ opt.get THEN "success" ELSE ""]
                ELSE act' = [x |-> "restart", on |-> on, ev |-> ""] /\ data' = data /\ seen' = 0 /\ polled' = FALSE /\ bound' = FALSE
             /\ UNCHANGED <<opt, bucket, val, rev, krev>>
(* messages that are no news of the key: another key, not republished by the store, older than what was seen *)
Noise == /\ Mode = "repub"
         /\ \E k \in {"foreign", "plain", "stale", "staledel", "stalepurge"} : (k \in {"stale", "staledel", "stalepurge"} => seen > 1) /\ (k = "foreign" => rev < MaxRev)
              /\ act' = [x |-> k, ev |-> "", s |-> seen, d |-> krev]
              /\ rev' = IF k = "foreign" THEN rev + 1 ELSE rev
         /\ UNCHANGED <<opt, bucket, val, krev, data, seen, polled, bound>>
Next == Create \/ Remove \/ Due \/ NoStore \/ Soon \/ Idle \/ Put \/ Del \/ Restart \/ Noise
Spec == Init /\ [][Next]_vars
(* an effective look leaves the item equal to the key, a failed one leaves it alone *)
Mirrors == [][act'.x = "poll" => data' = IF bucket THEN val ELSE data]_vars
FiresOnChange == [][(data' /= data) => act'.ev = "success"]_vars
FailKeeps == [][(act'.ev = "fail") => data' = data]_vars
Silent == [][(act'.ev = "success" /\ data' = data) => (opt.get \/ opt.match)]_vars
F == [opt |-> opt, bucket |-> bucket, val |-> val, rev |-> rev, krev |-> krev, data |-> data, seen |-> seen, polled |-> polled, bound |-> bound]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
