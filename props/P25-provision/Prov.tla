-------------------------------- MODULE Prov --------------------------------
(* One server process and the provisioners that call its provisioning agent. The mode is that of the running *)
(* process: it changes only with a restart, which ends the behaviour.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Callers, Wide
VARIABLES mode, token, file,   \* fixed per process: provisioning or not, token configured or not, kind of configuration file
          holder,              \* who holds the provisioning lock, "none" when nobody does
          cfg,                 \* what the configuration file says
          seed, jwt,           \* whether a key seed and a server token are stored
          ecdh,                \* whether a key exchange took place
          act
vars == <<mode, token, file, holder, cfg, seed, jwt, ecdh, act>>
View == <<mode, token, file, holder, cfg, seed, jwt, ecdh>>
Fixed == UNCHANGED <<mode, token, file>>
None == "none"
Init == /\ mode \in {"prov", "normal"} /\ token \in BOOLEAN /\ file \in {"file", "link", "absent"}
        /\ (file = "link" => token) /\ (file = "absent" => mode = "prov")
        /\ holder = None /\ cfg = (IF file = "absent" THEN "absent" ELSE "orig") /\ seed = FALSE /\ jwt \in (IF token /\ file = "file" THEN BOOLEAN ELSE {FALSE}) /\ ecdh = FALSE
        /\ act = [x |-> "init", ok |-> FALSE]
Locked == {"configure", "gen25519", "gencsr", "jwt", "release_update"}
Bad == {"empty", "badjson", "badcfg", "nopair", "badkey", "badpolicy", "badrego", "escape", "escaperego"}
Payloads(a) == IF a = "configure" THEN {"good", "still", "full"} \cup Bad \cup (IF ecdh THEN {"withkey"} ELSE {})
               ELSE IF a = "restart" THEN {"plain", "splay", "negsplay"} ELSE {"plain"}
Tokens == {"right", "wrong", "missing"}
TokenOk(t) == ~token \/ t = "right"
MayLock(c, a) == a \notin Locked \/ holder \in {None, c}
ModeOk(a) == CASE a \in Locked -> mode = "prov"
               [] a = "reprovision" -> mode = "normal"
               [] a \in {"restart", "shutdown"} -> mode = "prov" \/ token
(* the configuration a restart would come up with *)
Leaves(c) == c \in {"good", "full"} \/ (c = "orig" /\ mode = "normal")
BodyOk(a, b) == CASE a = "configure" -> b \notin Bad
                  [] a = "restart" -> Leaves(cfg)
                  [] a = "release_update" -> FALSE
                  [] OTHER -> TRUE
Call(c, a, t, b) ==
  LET ok == MayLock(c, a) /\ ModeOk(a) /\ TokenOk(t) /\ BodyOk(a, b)
  IN /\ holder' = IF a \in Locked /\ holder = None THEN c ELSE holder
     /\ cfg' = IF ok /\ a = "configure" THEN (IF b = "withkey" THEN "good" ELSE b) ELSE IF ok /\ a = "reprovision" THEN "reprov" ELSE cfg
     /\ seed' = (seed \/ (ok /\ a = "gen25519"))
     /\ jwt' = IF ok /\ a = "gen25519" THEN FALSE ELSE IF ok /\ a = "configure" /\ b = "full" THEN TRUE ELSE jwt
     /\ ecdh' = (ecdh \/ (ok /\ a = "jwt"))
     /\ act' = [x |-> a, c |-> c, t |-> t, b |-> b, ok |-> ok, early |-> ~(MayLock(c, a) /\ ModeOk(a) /\ TokenOk(t))]
     /\ Fixed
(* the lock is not renewed and passes *)
Expire == holder /= None /\ holder' = None /\ act' = [x |-> "expire", c |-> holder, ok |-> FALSE] /\ Fixed /\ UNCHANGED <<cfg, seed, jwt, ecdh>>
(* generating a key pair is slow and the same everywhere *)
Worth(a) == a = "gencsr" => ~seed /\ ~ecdh /\ ~jwt /\ cfg \in {"orig", "absent"}
(* bad payloads with a bad token, and bad payloads from more than one caller, add little: left out unless Wide *)
Useful(c, t, b) == Wide \/ ((b \in {"splay", "negsplay"} => t = "right" /\ c = "A") /\ (b \in Bad => (t = "right" /\ c = "A")) /\ (t = "missing" => c = "A"))
Next == Expire \/ \E c \in Callers, a \in Locked \cup {"reprovision", "restart", "shutdown"}, t \in Tokens : Worth(a) /\ \E b \in Payloads(a) : Useful(c, t, b) /\ Call(c, a, t, b)
Spec == Init /\ [][Next]_vars
(* what the property says *)
Guard == [][(act'.x /= "expire" /\ act'.ok) => /\ (token => act'.t = "right")
                             /\ (act'.x \in Locked => mode = "prov" /\ holder' = act'.c /\ holder \in {None, act'.c})
                             /\ (act'.x = "reprovision" => mode = "normal")
                             /\ (act'.x = "restart" => Leaves(cfg))]_vars
OnlyAccepted == [][(cfg' /= cfg) => act'.ok /\ act'.x \in {"configure", "reprovision"}]_vars
F == [mode |-> mode, token |-> token, file |-> file, holder |-> holder, cfg |-> cfg, seed |-> seed, jwt |-> jwt, ecdh |-> ecdh]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
