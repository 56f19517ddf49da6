------------------------------- MODULE Enroll -------------------------------
(* A node enrolls with a Puppet CA: what is on disk after every attempt, whatever the CA answers. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES F, act
(* key: none, own (stays the same for ever), bad (unreadable file); csr: made from the key; ca: none, ok, other; cert; srv: the CA has the request *)
Blank == [key |-> "none", csr |-> FALSE, ca |-> "none", cert |-> FALSE, srv |-> FALSE]
vars == <<F, act>>
Init == F = Blank /\ act = [op |-> "init"]
(* fetch: answer to asking for the CA certificate; submit: to the request; get: to asking for the certificate *)
Enroll(fetch, submit, get) ==
  LET done == F.key # "none" /\ F.ca # "none" /\ F.cert
      ca == IF F.ca # "none" THEN F.ca ELSE fetch
      fail == F.ca = "none" /\ fetch = "refuse"
      sub == ~F.cert /\ ca = "ok" /\ submit = "ok"
      subfail == ~F.cert /\ ~sub /\ ~F.csr
      srv == F.srv \/ sub
      got == F.cert \/ (ca = "ok" /\ get = "ready" /\ srv)
      res == IF done THEN "already" ELSE IF F.key = "bad" THEN "error" ELSE IF fail THEN "error" ELSE IF subfail THEN "error" ELSE IF got THEN "ok" ELSE "timeout"
      G == IF done \/ F.key = "bad" THEN F
           ELSE IF fail THEN [F EXCEPT !.key = "own"]
           ELSE [key |-> "own", csr |-> TRUE, ca |-> ca, cert |-> F.cert \/ (~subfail /\ got), srv |-> srv]
  IN F' = G /\ act' = [op |-> "enroll", fetch |-> fetch, submit |-> submit, get |-> get, res |-> res,
                       sent |-> res \notin {"already"} /\ F.key # "bad" /\ ~fail /\ sub, asked |-> res \in {"ok", "timeout"} /\ ~F.cert /\ ca = "ok", newcsr |-> ~F.csr /\ G.csr]
Remove(x) == /\ CASE x = "ca" -> F.ca # "none" [] x = "cert" -> F.cert [] OTHER -> F.key # "none"
             /\ F' = CASE x = "ca" -> [F EXCEPT !.ca = "none"] [] x = "cert" -> [F EXCEPT !.cert = FALSE] [] OTHER -> [F EXCEPT !.key = "none", !.csr = FALSE, !.cert = FALSE, !.srv = FALSE]
             /\ act' = [op |-> "remove", what |-> x]
Damage == F.key = "own" /\ F' = [F EXCEPT !.key = "bad"] /\ act' = [op |-> "damage"]
Repair == F.key = "bad" /\ F' = [F EXCEPT !.key = "own"] /\ act' = [op |-> "repair"]
Next == \/ \E f \in {"ok", "other", "refuse"}, s \in {"ok", "no"}, g \in {"ready", "not", "error"} : Enroll(f, s, g)
        \/ \E x \in {"ca", "cert", "key"} : Remove(x)
        \/ Damage \/ Repair
Spec == Init /\ [][Next]_vars
V == F
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
----
(* once made the key stays; a request exists only for it; certificates come only from the authority that is trusted *)
KeyStays == [][(act'.op = "enroll" /\ F.key # "none") => F'.key = F.key]_vars
Requested == F.csr => F.key # "none"
FromCA == [][(act'.op = "enroll" /\ F'.cert /\ ~F.cert) => F'.ca = "ok" /\ F'.srv]_vars
Complete == [][(act'.op = "enroll" /\ act'.res = "ok") => F'.cert /\ F'.key = "own" /\ F'.ca # "none"]_vars
=============================================================================
