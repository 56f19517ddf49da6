------------------------------ MODULE Connect ------------------------------
(* How a connection to a broker is made: with what credentials, over what transport, and when it is refused. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES row, st, link, cred
vars == <<row, st, link, cred>>
Rows == [sec : {"file", "anon", "choria"}, who : {"server", "client"}, notls : BOOLEAN, prov : {"no", "nojwt", "jwt"}, token : {"ok", "missing", "expired", "other"},
         seed : {"ok", "missing"}, user : {"both", "half", "none"}, ca : BOOLEAN, broker : {"plain", "good", "evil", "name"}]
Sane(r) ==
  /\ r.prov # "no" => r.who = "server" /\ r.token = "ok" /\ r.seed = "ok"
  /\ r.sec = "file" => r.token = "ok" /\ r.seed = "ok"
  /\ r.sec # "choria" => r.ca
  /\ r.token # "ok" => r.seed = "ok" /\ r.user = "none" /\ ~r.notls
  /\ r.seed # "ok" => r.user = "none"
  /\ r.user # "none" => r.broker \in {"plain", "good"}

Jwt(r) == r.sec \in {"anon", "choria"} /\ r.prov = "no"
Init == row \in {r \in Rows : Sane(r)} /\ st = "new" /\ link = "none" /\ cred = [t |-> "none"]

(* a token that cannot be used is refused before anything is sent *)
Identify ==
  /\ st = "new" /\ UNCHANGED <<row, link>>
  /\ IF Jwt(row) /\ (row.token \in {"missing", "expired"} \/ (row.token = "other" /\ row.who = "server"))
     THEN st' = "refused" /\ UNCHANGED cred
     ELSE /\ st' = "identified"
          /\ cred' = [t |-> "cred", user |-> row.user = "both",
                      token |-> CASE Jwt(row) -> "own" [] row.prov = "jwt" -> "prov" [] OTHER -> "none",
                      signed |-> Jwt(row),
                      inbox |-> IF Jwt(row) THEN "unique" ELSE "shared"]

(* the transport asked for: never weaker than configured *)
Wants == CASE row.prov # "no" -> "anon"
           [] row.notls -> "plain"
           [] row.sec = "anon" -> "anon"
           [] row.sec = "choria" /\ ~row.ca -> "anon"
           [] OTHER -> "verified"
Dial ==
  /\ st = "identified" /\ UNCHANGED <<row, cred>>
  /\ CASE Wants = "plain" /\ row.broker = "plain" -> link' = "plain" /\ st' = "linked"
       [] Wants = "anon" /\ row.broker # "plain" -> link' = "tls" /\ st' = "linked"
       [] Wants = "verified" /\ row.broker = "good" -> link' = "tls" /\ st' = "linked"
       [] OTHER -> st' = "never" /\ UNCHANGED link
Authenticate ==
  /\ st = "linked" /\ UNCHANGED <<row, cred, link>>
  /\ st' = IF Jwt(row) /\ row.seed = "missing" THEN "never" ELSE "connected"
Next == Identify \/ Dial \/ Authenticate
Spec == Init /\ [][Next]_vars

NeverWeaker == st = "connected" => (link = "plain") = (row.notls /\ row.prov = "no")
Verified == (st = "connected" /\ row.sec = "file" /\ row.prov = "no" /\ ~row.notls) => row.broker = "good"
NoBadToken == (st \notin {"new", "refused"} /\ Jwt(row)) => row.token = "ok" \/ (row.who = "client" /\ row.token = "other")
NoSecretsInTheClear == (st = "connected" /\ link = "plain") => row.notls

Done == st \in {"refused", "never", "connected"}
Emit == Done => PrintT("@@" \o ToJson([row |-> row, st |-> st, link |-> link, cred |-> cred]))
=============================================================================
