-------------------------------- MODULE Define --------------------------------
(* Which gossip watchers can be defined, and where they announce what. *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES r
Reg == [c |-> "lon", s |-> "web", p |-> "http", ip |-> "10.0.0.1", port |-> 80, prefix |-> ""]
Names == {"", "lon", "a1-b_c", "1a", "a.b", "a b", "a*", "a>", "-a", "Z"}
NameOK == {"web", "http", "lon", "a1-b_c", "Z"}
IPs == {"", "10.0.0.1", "::1", "10.0.0", "host"}
IpOK == {"10.0.0.1", "::1"}
Regs == {[Reg EXCEPT !.c = n] : n \in Names} \cup {[Reg EXCEPT !.s = n] : n \in Names} \cup {[Reg EXCEPT !.p = n] : n \in Names}
        \cup {[Reg EXCEPT !.ip = n] : n \in IPs} \cup {[Reg EXCEPT !.port = n] : n \in {0, 80}}
        \cup {[Reg EXCEPT !.prefix = n] : n \in {"", "my.kv", "my kv", "my..kv", "my.*"}}
Intervals == {"", "0s", "5s", "100ms", "-5s", "junk"}
Rows == [k : {"plain"}, subject : {"", "a.b", "a b", "a..b", "a.*", "a^b"}, payload : {"", "hello"}, reg : {Reg}, iv : {"5s"}]
        \cup [k : {"reg"}, subject : {""}, payload : {""}, reg : Regs, iv : {"5s"}]
        \cup [k : {"both"}, subject : {"", "a.b"}, payload : {"", "hello"}, reg : {Reg}, iv : {"5s"}]
        \cup [k : {"plain"}, subject : {"a.b"}, payload : {"hello"}, reg : {Reg}, iv : Intervals]
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
RegOK == r.reg.c \in NameOK /\ r.reg.s \in NameOK /\ r.reg.p \in NameOK /\ r.reg.ip \in IpOK /\ r.reg.port # 0 /\ r.reg.prefix \in {"", "my.kv"}
Admitted == /\ r.iv \notin {"-5s", "junk"}
            /\ CASE r.k = "plain" -> r.subject = "a.b" /\ r.payload # ""
                 [] r.k = "reg" -> RegOK
                 [] OTHER -> r.subject = "" /\ r.payload = "" /\ RegOK
Subject == IF r.k = "plain" THEN r.subject
           ELSE (IF r.reg.prefix = "" THEN "$KV.CHORIA_SERVICES" ELSE r.reg.prefix) \o "." \o r.reg.c \o "." \o r.reg.p \o "." \o r.reg.s \o ".1234"
Emit == PrintT("@@" \o ToJson([r |-> r, ok |-> Admitted, subject |-> Subject]))
=============================================================================
