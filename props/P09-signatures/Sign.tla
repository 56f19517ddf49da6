-------------------------------- MODULE Sign --------------------------------
(* When is a signed request accepted?                                       *)
(* A and D are trusted signers; with organisation issuers A issues for      *)
(* choria and C for acme. X is nobody.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES r
T(k, by, v, p) == [k |-> k, by |-> by, v |-> v, p |-> p]
None == T("none", "", "", "")
Garbage == T("garbage", "", "", "")
Defects == {"expired", "notyet", "noou", "otherou", "tampered", "nokey", "badkey", "algnone", "chained", "chainexpired", "chainforged", "oddpurpose"}
CPerms == {"nil", "none", "fleet", "signed", "both", "deleg", "org"}
Callers == {T("client", "A", "ok", p) : p \in CPerms} \cup {T("client", by, "ok", p) : by \in {"D", "C", "X"}, p \in {"fleet", "signed"}}
            \cup {T("client", "A", v, p) : v \in Defects, p \in {"fleet", "signed"}} \cup {T("client", "C", "acme", "fleet"), T("client", "C", "acme", "signed")}
            \cup {T("server", by, "ok", "none") : by \in {"A", "D", "X"}} \cup {T("server", "A", v, "none") : v \in {"expired", "noou", "nokey", "tampered"}} \cup {T("server", "C", "acme", "none")}
            \cup {T("prov", "A", "ok", "none"), None, Garbage}
SPerms == {"nil", "none", "fleet", "deleg", "delegfleet", "org"}
Signers == {T("client", "A", "ok", p) : p \in SPerms} \cup {T("client", by, "ok", "deleg") : by \in {"D", "C", "X"}}
            \cup {T("client", "A", v, "deleg") : v \in Defects} \cup {T("client", "C", "acme", "deleg"), T("server", "A", "ok", "none"), T("prov", "A", "ok", "none"), Garbage}
(* signature: by which key and over what *)
Sigs == {"caller", "signer", "other", "altered", "missing", "short"}
Modes == {"signers", "onesigner", "issuers", "nothing"}
(* the caller name in the request *)
Names == {"same", "other", "prefix"}
Unsigned == {x \in [mode : Modes, caller : Callers, signer : {None}, sig : Sigs \ {"signer"}, name : Names] :
               (x.name # "same" => x.sig = "caller")}
SomeCallers == {T("client", "A", "ok", p) : p \in CPerms} \cup {T("client", by, "ok", "signed") : by \in {"D", "C", "X"}}
                \cup {T("client", "A", v, "signed") : v \in Defects \ {"noou", "otherou"}} \cup {T("client", "C", "acme", "signed"), T("client", "C", "acme", "fleet"), T("server", "A", "ok", "none"), None, Garbage}
Signed == {x \in [mode : Modes, caller : SomeCallers, signer : Signers, sig : Sigs, name : Names] :
              /\ (x.name # "same" => x.sig = "signer")
              /\ (x.sig \notin {"signer", "caller"} => x.caller.v = "ok")
              \* a caller token naming another organisation than its issuer's is left to the delegate
              /\ ~(x.mode = "issuers" /\ x.caller.by = "C" /\ x.caller.v = "ok" /\ x.signer.by = "C")}
(* the caller presents its own token as the signer too *)
Itself == T("self", "", "", "")
Selves == [mode : Modes, caller : SomeCallers \cup {T("client", by, "ok", p) : by \in {"A", "X"}, p \in SPerms}, signer : {Itself}, sig : {"caller", "other", "altered", "missing"}, name : {"same", "other"}]
Init == r \in Unsigned \cup Signed \cup {x \in Selves : x.caller.k \notin {"none", "garbage"} /\ x.caller.v # "oddpurpose"}
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
Live(t) == t.v \in {"ok", "noou", "otherou", "acme", "chained", "nokey", "badkey"} /\ t.k \in {"client", "server"}
HasKey(t) == t.v \notin {"nokey", "badkey"}
(* the trusted key the token was issued under, "" when none *)
Root(mode, t) ==
  IF ~Live(t) THEN ""
  ELSE CASE mode = "signers" -> IF t.by \in {"A", "D"} THEN t.by ELSE ""
         [] mode = "onesigner" -> IF t.by = "A" THEN "A" ELSE ""
         [] mode = "issuers" -> IF t.v \in {"noou", "otherou"} THEN "" ELSE IF t.v = "acme" THEN (IF t.by = "C" THEN "C" ELSE "") ELSE IF t.by = "A" THEN "A" ELSE ""
         [] OTHER -> ""
Trusted(mode, t) == Root(mode, t) # ""
Fleet(p) == p \in {"fleet", "both", "delegfleet"}
SignedFleet(p) == p \in {"signed", "both"}
ByCaller(x) == /\ Trusted(x.mode, x.caller) /\ x.caller.k = "client" /\ HasKey(x.caller)
               /\ Fleet(x.caller.p) /\ ~SignedFleet(x.caller.p)
               /\ x.sig = "caller" /\ x.name = "same"
Signer(x) == IF x.signer = Itself THEN x.caller ELSE x.signer
ByDelegate(x) == /\ Trusted(x.mode, Signer(x)) /\ Signer(x).k = "client" /\ HasKey(Signer(x)) /\ Signer(x).p \in {"deleg", "delegfleet"}
                 /\ x.caller.k = "client" /\ Trusted(x.mode, x.caller) /\ Root(x.mode, x.caller) = Root(x.mode, Signer(x))
                 /\ (Fleet(x.caller.p) \/ SignedFleet(x.caller.p))
                 /\ x.sig = (IF x.signer = Itself THEN "caller" ELSE "signer")
Accept(x) == IF x.signer = None THEN ByCaller(x) ELSE ByDelegate(x)
(* signature over bytes by a single party, as used for anything but requests: servers may sign too *)
Bytes(x) == /\ x.signer = None /\ Trusted(x.mode, x.caller) /\ HasKey(x.caller) /\ x.sig = "caller"
            /\ (x.caller.k = "server" \/ (Fleet(x.caller.p) /\ ~SignedFleet(x.caller.p)))
------------------------------------------------------------------------------
NothingWithoutTrust == Accept(r) => Trusted(r.mode, r.caller) /\ r.mode # "nothing"
NothingAltered == Accept(r) => r.sig \in {"caller", "signer"}
ServersNeverCall == r.caller.k # "client" => ~Accept(r)
NoImpersonation == Accept(r) /\ r.name # "same" => Signer(r).p \in {"deleg", "delegfleet"}
SignedNeedsDelegate == Accept(r) /\ SignedFleet(r.caller.p) => r.signer # None
FleetOnly == Accept(r) => Fleet(r.caller.p) \/ SignedFleet(r.caller.p)
Emit == PrintT("@@" \o ToJson([r |-> r, ok |-> Accept(r), bytes |-> Bytes(r)]))
=============================================================================
