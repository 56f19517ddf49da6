-------------------------------- MODULE Auth --------------------------------
(* May a connection be admitted, and as whom, in which account, in which    *)
(* role?                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Part
VARIABLES r
T(k, by, v) == [k |-> k, by |-> by, v |-> v]
None == T("none", "", "")
(* A: trusted ed25519 key, issuer of ou choria. B: trusted RSA key. C: issuer of ou acme. X: nobody. P: RSA key of the provisioning signer *)
Common == {"ok", "expired", "notyet", "noname", "nokey", "badkey", "noou", "otherou", "chained"}
Clients == {T("client", "A", v) : v \in Common \cup {"chainexpired", "chainforged", "tampered"}} \cup {T("client", "B", "ok"), T("client", "X", "ok"), T("client", "C", "acme"), T("client", "C", "ok"), T("client", "A", "algnone")}
Servers == {T("server", "A", v) : v \in Common \cup {"tampered"}} \cup {T("server", "B", "ok"), T("server", "X", "ok"), T("server", "C", "acme"), T("server", "C", "ok")}
Provs == {T("prov", "P", "ok"), T("prov", "P", "expired"), T("prov", "A", "ok"), T("prov", "A", "noou"), T("prov", "A", "otherou"), T("prov", "A", "expired"), T("prov", "X", "ok"),
          T("prov", "C", "acme"), T("prov", "B", "ok")}
Odd == {T("unknown", "A", "ok"), T("garbage", "", "")}
Tokens == {None} \cup Clients \cup Servers \cup Provs \cup Odd
(* the signature over the nonce: by the token's key over the nonce, by another key, over another nonce, none, undecodable *)
Sigs == {"good", "otherkey", "othernonce", "missing", "garbage", "emptynonce"}
(* listener configurations that the broker can be started with *)
Real(x) == /\ (x.mtls => x.mode = "issuer")
           /\ (~x.tls => x.mode = "none" /\ x.prov = "off" /\ x.conn = "plain")
           /\ (x.remote # "tcp" => x.conn = "plain")
Relevant(x) == /\ (x.token.k \notin {"client", "server"} \/ x.conn = "plain" => x.sig = "good" /\ x.kind = "client")
               /\ (x.kind # "client" => x.sig = "good")
(* perm "others": every permission that is about something else *)
Rec(S) == [tls : S.tls, mode : S.mode, mtls : S.mtls, prov : S.prov, allow : S.allow, deny : S.deny, sys : S.sys, notoken : S.notoken, remote : S.remote, conn : S.conn,
           user : S.user, pass : S.pass, token : S.token, sig : S.sig, kind : S.kind, perm : S.perm]
BaseSets == [tls |-> {TRUE}, mode |-> {"none"}, mtls |-> {FALSE}, prov |-> {"off"}, allow |-> {"none"}, deny |-> {FALSE}, sys |-> {"off"}, notoken |-> {FALSE},
             remote |-> {"tcp"}, conn |-> {"unverified"}, user |-> {"bob"}, pass |-> {"right"}, token |-> {None}, sig |-> {"good"}, kind |-> {"client"}, perm |-> {"none"}]
Modes == {"none", "signers", "issuer"}
(* every token against every trust mode and provisioning set up *)
PartTokens == Rec([BaseSets EXCEPT !.mode = Modes, !.mtls = BOOLEAN, !.prov = {"off", "nopass", "nosigner", "on"}, !.conn = {"unverified", "verified"}, !.token = Tokens,
                                   !.sig = Sigs, !.kind = {"client", "leaf"}])
(* every kind of connection with few tokens *)
Few == {None, T("client", "A", "ok"), T("client", "X", "ok"), T("server", "A", "ok"), T("prov", "P", "ok"), T("prov", "A", "ok"), T("garbage", "", "")}
PartConns == Rec([BaseSets EXCEPT !.tls = BOOLEAN, !.mode = Modes, !.mtls = BOOLEAN, !.prov = {"off", "on"}, !.deny = BOOLEAN, !.allow = {"none", "in", "out"},
                                  !.remote = {"tcp", "pipe", "gone"}, !.conn = {"plain", "unverified", "verified"}, !.user = {"bob", ""}, !.token = Few])
PartSys == Rec([BaseSets EXCEPT !.mode = Modes, !.sys = {"off", "nopass", "noacct", "full"}, !.user = {"system"}, !.pass = {"right", "wrong", "empty"}, !.remote = {"tcp", "pipe"},
                                !.conn = {"plain", "unverified", "verified"}, !.tls = BOOLEAN, !.token = {None, T("client", "A", "ok"), T("client", "A", "expired"), T("client", "X", "ok"), T("server", "A", "ok"), T("prov", "A", "ok")},
                                !.sig = {"good", "otherkey", "missing"}, !.perm = {"nil", "none", "system", "org", "others"}, !.kind = {"client", "leaf"}])
PartProv == Rec([BaseSets EXCEPT !.mode = Modes, !.prov = {"off", "nopass", "noacct", "on"}, !.notoken = BOOLEAN, !.user = {"provisioner"}, !.pass = {"right", "wrong", "empty"},
                                 !.conn = {"plain", "unverified", "verified"}, !.sig = {"good", "missing"}, !.perm = {"nil", "none", "provisioner", "org", "others"},
                                 !.token = {None, T("client", "A", "ok"), T("client", "A", "expired"), T("client", "A", "otherou"), T("client", "X", "ok"), T("client", "A", "chained"), T("server", "A", "ok"), T("prov", "P", "ok"), T("prov", "A", "ok"), T("garbage", "", "")}])
Rows == CASE Part = "tokens" -> {x \in PartTokens : Real(x) /\ Relevant(x)}
          [] Part = "conns" -> {x \in PartConns : Real(x)}
          [] Part = "sys" -> {x \in PartSys : Real(x) /\ (x.token.k # "client" => x.perm = "none" /\ x.sig = "good" /\ x.kind = "client") /\ (x.kind = "leaf" => x.sig = "good")}
          [] Part = "prov" -> {x \in PartProv : Real(x) /\ (x.token.k # "client" => x.perm = "none" /\ x.sig = "good")}
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
(* trust *)
Live(t) == t.v \in {"ok", "noou", "otherou", "acme", "chained", "noname", "nokey", "badkey"}
SignedOK(x, t) ==
  CASE x.mode = "none" -> FALSE
    [] x.mode = "signers" -> t.by \in {"A", "B"} /\ Live(t)
    [] x.mode = "issuer" -> Live(t) /\ ((t.by = "A" /\ t.v \notin {"noou", "otherou"}) \/ (t.by = "C" /\ t.v = "acme"))
TokenOK(x, t) == SignedOK(x, t) /\ t.v \notin {"noname", "nokey"}
NonceOK(x, t) == x.sig = "good" /\ t.v # "badkey"
OwnerOK(x) == TokenOK(x, x.token) /\ NonceOK(x, x.token) /\ x.kind = "client"
Pipe(x) == x.remote = "pipe"
Verified(x) == x.conn = "verified"
------------------------------------------------------------------------------
Deny == [ok |-> FALSE, acct |-> "", user |-> "", role |-> ""]
In(a, u, ro) == [ok |-> TRUE, acct |-> a, user |-> u, role |-> ro]
Provisioner(x) ==
  IF x.prov # "on" \/ x.pass # "right" THEN Deny
  ELSE IF x.mode = "issuer"
       THEN IF (x.token.k = "none" /\ x.notoken) \/ (x.token.k = "client" /\ SignedOK(x, x.token) /\ x.perm = "provisioner") THEN In("provisioning", "provisioner", "open") ELSE Deny
       ELSE IF Verified(x) THEN In("provisioning", "provisioner", "open") ELSE Deny
System(x) ==
  LET pw == x.sys = "full" /\ x.pass = "right" IN
  IF Verified(x) \/ Pipe(x) THEN (IF pw THEN In("system", "system", "open") ELSE Deny)
  ELSE IF x.conn = "plain" THEN Deny
  ELSE IF x.token.k = "client" /\ OwnerOK(x) /\ x.perm \in {"system", "org"} /\ pw THEN In("system", "system", "open") ELSE Deny
Unprovisioned(x) ==
  IF ~x.tls \/ Verified(x) \/ x.prov \in {"off", "noacct"} \/ x.token.k # "prov" \/ ~Live(x.token) THEN Deny
  ELSE IF x.token.by \notin {"P", "B"} /\ x.mode = "issuer"
       THEN IF x.prov # "nopass" /\ ((x.token.by = "A" /\ x.token.v = "ok") \/ (x.token.by = "C" /\ x.token.v = "acme")) THEN In("provisioning", x.user, "provserver") ELSE Deny
       ELSE IF x.prov # "nosigner" /\ x.token.by = "P" THEN In("provisioning", x.user, "provserver") ELSE Deny
ServerRole(x, withclaims) == IF x.deny THEN "denied" ELSE IF withclaims THEN "server" ELSE "defaultserver"
Default(x) ==
  LET jwt == x.token.k # "none" /\ x.conn # "plain" IN
  IF jwt THEN
    (IF x.token.k = "client" /\ OwnerOK(x) THEN In("choria", "caller", "client")
     ELSE IF x.token.k = "server" /\ OwnerOK(x) THEN In("choria", "identity", ServerRole(x, TRUE))
     ELSE Unprovisioned(x))
  ELSE IF ~Verified(x) /\ ~Pipe(x) THEN Deny
  ELSE IF x.allow # "none" THEN In("choria", x.user, IF x.allow = "in" THEN "any" ELSE ServerRole(x, FALSE))
  ELSE IF Pipe(x) THEN In("choria", x.user, "open")
  ELSE IF x.mtls THEN In("choria", x.user, "pubsub")
  ELSE IF x.mode = "issuer" THEN Deny
  ELSE In("choria", x.user, "open")
Verdict(x) == IF x.remote = "gone" THEN Deny
              ELSE IF x.tls /\ x.conn = "plain" /\ ~Pipe(x) THEN Deny
              ELSE IF x.user = "provisioner" THEN Provisioner(x)
              ELSE IF x.user = "system" /\ x.sys # "off" THEN System(x)
              ELSE Default(x)
------------------------------------------------------------------------------
V == Verdict(r)
NoEvidenceNoEntry == V.ok => Pipe(r) \/ Verified(r) \/ SignedOK(r, r.token) \/ V.role = "provserver" \/ (V.acct = "provisioning" /\ r.notoken)
SystemOnlyByPassword == V.acct = "system" => r.user = "system" /\ r.pass = "right" /\ r.sys = "full"
ProvisioningIsolated == V.acct = "provisioning" => r.user = "provisioner" \/ r.token.k = "prov"
UnprovisionedNotInChoria == r.token.k = "prov" /\ r.conn = "unverified" => V.acct # "choria"
ClearTextRefused == r.conn = "plain" /\ ~Pipe(r) => ~V.ok
Emit == PrintT("@@" \o ToJson([r |-> r, v |-> V]))
=============================================================================
