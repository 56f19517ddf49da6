------------------------------ MODULE Provmode ------------------------------
(* Whether a server starts in provisioning mode, and the profile it then has: what the build says, what a provisioning
   token adds to that, what the configuration and the server's own token decide. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES row, st, b, mode, prof
vars == <<row, st, b, mode, prof>>

Jwts == {"unset", "missing", "garbage", "client", "notoken", "neither", "both", "urls", "srv", "full"}
Valid == {"urls", "srv", "full"}
Rows == [server : BOOLEAN, urls : {"", "nats://build.example:4222"}, token : {"", "bt"}, def : BOOLEAN, opt : {"unset", "true", "false"},
         own : {"none", "same", "other", "expired"}, jwt : Jwts, extra : BOOLEAN]
(* what is built into the server *)
Built(r) == [urls |-> r.urls, srv |-> "", token |-> r.token, def |-> r.def, secure |-> TRUE, v2 |-> FALSE, update |-> FALSE,
             facts |-> IF r.extra THEN "/build/facts.json" ELSE "", reg |-> IF r.extra THEN "/build/reg.json" ELSE "",
             user |-> IF r.extra THEN "builduser" ELSE "", pass |-> IF r.extra THEN "buildpass" ELSE "",
             status |-> IF r.extra THEN "/build/status.json" ELSE ""]
(* what a valid provisioning token says *)
Jwt(k) == CASE k = "urls" -> [urls |-> "nats://j1.example:4222, nats://j2.example:4223", srv |-> "", token |-> "jt1", def |-> FALSE, secure |-> FALSE,
                              v2 |-> FALSE, update |-> FALSE, facts |-> "", reg |-> "", user |-> "", pass |-> ""]
            [] k = "srv"  -> [urls |-> "", srv |-> "prov.example", token |-> "jt2", def |-> TRUE, secure |-> TRUE,
                              v2 |-> FALSE, update |-> TRUE, facts |-> "/jwt/facts.json", reg |-> "", user |-> "ju", pass |-> "jp"]
            [] k = "full" -> [urls |-> "wss://j3.example:443", srv |-> "", token |-> "jt3", def |-> FALSE, secure |-> TRUE,
                              v2 |-> TRUE, update |-> TRUE, facts |-> "/jwt/facts.json", reg |-> "/jwt/reg.json", user |-> "ju", pass |-> "jp"]
Pick(new, old) == IF new # "" THEN new ELSE old

NoProfile == [set |-> FALSE]
Init == row \in {r \in Rows : (r.own \in {"expired"} => r.jwt \in {"unset", "urls"} /\ ~r.extra) /\ (~r.server => r.own \in {"none", "other"})}
        /\ st = "start" /\ b = Built(row) /\ mode = FALSE /\ prof = NoProfile

(* the token is read whether or not the server is to provision *)
Read ==
  /\ st = "start" /\ st' = "read"
  /\ b' = IF row.jwt \notin Valid THEN b
          ELSE LET j == Jwt(row.jwt) IN
               [b EXCEPT !.urls = j.urls, !.srv = j.srv, !.token = j.token, !.def = j.def, !.secure = j.secure, !.v2 = j.v2, !.update = j.update,
                         !.facts = Pick(j.facts, b.facts), !.reg = Pick(j.reg, b.reg), !.user = Pick(j.user, b.user), !.pass = Pick(j.pass, b.pass)]
  /\ UNCHANGED <<row, mode, prof>>
(* the build can provision at all, the configuration decides, a token of another node means a copied image, else the default *)
Can == b.urls # "" \/ row.jwt # "unset" \/ b.token # ""
Decide ==
  /\ st = "read" /\ st' = "decided"
  /\ mode' = (row.server /\ Can /\ CASE row.opt = "true" -> TRUE [] row.opt = "false" -> FALSE [] OTHER -> (row.own = "other" \/ b.def))
  /\ UNCHANGED <<row, b, prof>>
Apply ==
  /\ st = "decided" /\ st' = "done"
  /\ prof' = IF ~mode THEN NoProfile
             ELSE [set |-> TRUE, user |-> b.user, pass |-> b.pass, facts |-> b.facts, update |-> b.update, status |-> b.status, reg |-> b.reg,
                   srv |-> b.srv, secure |-> b.secure /\ ~(row.jwt # "unset" /\ b.v2), security |-> IF row.jwt # "unset" /\ b.v2 THEN "choria" ELSE "file"]
  /\ UNCHANGED <<row, b, mode>>
Next == Read \/ Decide \/ Apply
Spec == Init /\ [][Next]_vars

NeverOnClients == mode => row.server
ConfiguredNo == row.opt = "false" => ~mode
ProductionUntouched == (st = "done" /\ ~mode) => prof = NoProfile
InvalidTokenSaysNothing == row.jwt \notin Valid => b = Built(row)
Destination == (st = "done" /\ row.jwt \in Valid) => (b.urls = "") # (b.srv = "")

Emit == st = "done" => PrintT("@@" \o ToJson([row |-> row, b |-> b, mode |-> mode, prof |-> prof, supports |-> mode \/ b.token # ""]))
=============================================================================
