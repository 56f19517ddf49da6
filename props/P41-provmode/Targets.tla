------------------------------ MODULE Targets ------------------------------
(* Where a server in provisioning mode connects: the brokers it was told, else those DNS names, asked again and again,
   with growing pauses, until it answers or the server stops. Time passes in steps between tries. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ups, Stops
VARIABLES row, tries, out
vars == <<row, tries, out>>
Urls == {"", "nats://a.example:4222", "a.example:4222", " a.example:4222 ,wss://b.example:443", "nats://a.example", "a.example:4222,", "a.example:4222,b.example"}
Bad == {"nats://a.example", "a.example:4222,", "a.example:4222,b.example"}
Servers(u) == CASE u = "nats://a.example:4222" -> <<"nats://a.example:4222">>
                [] u = "a.example:4222" -> <<"nats://a.example:4222">>
                [] u = " a.example:4222 ,wss://b.example:443" -> <<"nats://a.example:4222", "wss://b.example:443">>
Rows == [urls : Urls, srv : {"", "prov.example"}, up : Ups, stop : Stops \cup {0}]
Init == row \in {r \in Rows : (r.urls # "" \/ r.srv = "") => r.up = 1 /\ r.stop = 0} /\ tries = 0 /\ out = [t |-> "trying"]
Told ==
  /\ out.t = "trying" /\ row.urls # "" /\ UNCHANGED <<row, tries>>
  /\ out' = IF row.urls \in Bad THEN [t |-> "error"] ELSE [t |-> "servers", s |-> Servers(row.urls)]
Nowhere == out.t = "trying" /\ row.urls = "" /\ row.srv = "" /\ out' = [t |-> "error"] /\ UNCHANGED <<row, tries>>
(* stop = n: the server is stopped before its n+1st try, 0 never *)
Try ==
  /\ out.t = "trying" /\ row.urls = "" /\ row.srv # "" /\ UNCHANGED row
  /\ IF row.stop # 0 /\ tries = row.stop THEN out' = [t |-> "error"] /\ UNCHANGED tries
     ELSE /\ tries' = tries + 1
          /\ out' = IF tries' >= row.up THEN [t |-> "servers", s |-> <<"nats://p1.example:4222", "nats://p2.example:4333">>] ELSE out
Next == Told \/ Nowhere \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(out.t # "trying")
Patient == out.t = "error" => row.urls \in Bad \/ (row.urls = "" /\ row.srv = "") \/ row.stop # 0
Emit == out.t # "trying" => PrintT("@@" \o ToJson([row |-> row, tries |-> tries, out |-> out]))
=============================================================================
