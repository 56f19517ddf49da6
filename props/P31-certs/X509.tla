-------------------------------- MODULE X509 --------------------------------
(* Which certificates the certificate based security providers accept, for which names and which peers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES r
(* A certificate: who issued it (the trusted root, an intermediate sent along with it, an intermediate that was not sent, another authority,
   itself, an intermediate of another authority), what it may be used for, when it is valid, whom it names and how it is encoded. *)
Issuers == {"root", "sub", "subonly", "other", "othersub", "self"}
Uses == {"client", "server", "both", "none"}
Times == {"ok", "expired", "future"}
Forms == {"ok", "lead", "empty", "junk", "trunc", "block", "keyfirst", "otherblock"}
Authorities == {"ok", "missing", "notpem", "othertoo", "empty"}
Cert(i, u, t, cn, sans, mails, form, alg) == [iss |-> i, use |-> u, time |-> t, cn |-> cn, sans |-> sans, mails |-> mails, form |-> form, alg |-> alg]
Plain(cn, sans) == Cert("root", "both", "ok", cn, sans, {}, "ok", "rsa")
(* the encodings that hold a certificate in a block labelled as one, before anything else *)
Readable(c) == c.form \in {"ok", "lead"}
Chained(ca, c) == ca \in {"ok", "othertoo"} /\ (c.iss \in {"root", "sub"} \/ (ca = "othertoo" /\ c.iss \in {"other", "othersub"}))
Trusted(ca, c, use) == Readable(c) /\ Chained(ca, c) /\ c.time = "ok" /\ c.use \in {use, "both", "none"}
Names(c) == {c.cn} \cup c.sans
Email(n) == n \in {"email:a@example.net", "email:b@example.net", "email:xa@example.net", "email:a@example.net.other", "email:A@example.net", "email:"}
Named(c, n) == \/ n = ""
               \/ Email(n) /\ c.mails # {} /\ \E m \in c.mails : n = "email:" \o m
               \/ (~Email(n) \/ c.mails = {}) /\ n \in Names(c)
Accept(ca, c, n) == Trusted(ca, c, "client") /\ Named(c, n)
----
A == "alice.mcollective"
P == "ops.privileged.mcollective"
B == "bob.example"
(* patterns by symbol *)
Match(p, n) == CASE p = "priv" -> n = P  \* \.privileged\.mcollective$
                 [] p = "slash" -> n \in {A, P, "alicexmcollective"}  \* /mcollective$/
                 [] p = "dots" -> n \in {A, P}  \* \.mcollective$
                 [] p = "alice" -> n \in {A, "alicexmcollective"} \* ^alice
                 [] p = "bad" -> FALSE  \* (
                 [] OTHER -> FALSE
AnyOf(ps, n) == \E p \in ps : Match(p, n)
Lists == {{}, {"dots"}, {"slash"}, {"alice", "bad"}}
Caller(ca, c, n, priv, allow, count) ==
  IF count # 1 \/ ~Trusted(ca, c, "client") THEN "refuse"
  ELSE IF \E m \in Names(c) : AnyOf(priv, m) THEN "privileged"
  ELSE IF Named(c, n) /\ AnyOf(allow, n) THEN "allow" ELSE "refuse"
----
(* TLS peers: h is the name dialled, compat accepts the common name of certificates without alternative names *)
Host(c, h, compat) == IF c.sans = {} THEN compat /\ h # "ip" /\ c.cn = h
                      ELSE \/ h \in c.sans \/ (h # "ip" /\ "*.example" \in c.sans)
Peer(ca, c, h, compat, noverify) == (noverify /\ ~compat) \/ (Trusted(ca, c, "server") /\ Host(c, h, compat))
----
VerifyRows ==
  [k : {"verify"}, ca : {"ok"}, c : {Cert(i, u, t, A, {}, {}, "ok", "rsa") : i \in Issuers, u \in Uses, t \in Times}, n : {"", A, B}]
  \cup [k : {"verify"}, ca : Authorities, c : {Cert(i, "both", "ok", A, {B}, {}, f, "rsa") : i \in Issuers, f \in Forms}, n : {"", A, B, P}]
  \cup [k : {"verify"}, ca : {"ok"}, c : {Cert(i, "client", "ok", cn, s, m, "ok", "rsa") : i \in {"root", "other"}, cn \in {A, P, "", "email:a@example.net"}, s \in {{}, {B}, {A, B}}, m \in {{}, {"a@example.net"}, {"a@example.net", "b@example.net"}}},
      n : {"", A, B, P, "alice", "email:a@example.net", "email:b@example.net", "email:xa@example.net", "email:a@example.net.other", "email:A@example.net", "a@example.net", "email:"}]
  \cup [k : {"verify"}, ca : {"ok"}, c : {Cert("root", "client", "ok", cn, s, {}, "ok", "rsa") : cn \in {A, B, "*.mcollective", "mcollective"}, s \in {{}, {"*.mcollective"}, {"mcollective", B}}},
      n : {A, "ALICE.mcollective", "xalice.mcollective", "alice.mcollective.other", "mcollective", "*.mcollective", B}]
  \cup [k : {"verify"}, ca : {"ok"}, c : {Cert(i, "client", "ok", A, {}, {}, "ok", a) : i \in {"root", "other", "self"}, a \in {"ec", "ed"}}, n : {"", A, B}]
CallerRows ==
  [k : {"caller"}, ca : {"ok"}, c : {Cert(i, "client", t, cn, s, {}, "ok", "rsa") : i \in {"root", "other"}, t \in {"ok", "expired"}, cn \in {A, P, B, "alicexmcollective"}, s \in {{}, {P}, {B}}},
     n : {A, P, B, "alicexmcollective"}, priv : {{}, {"priv"}}, allow : Lists, count : {1}]
  \cup [k : {"caller"}, ca : Authorities, c : {Cert(i, "both", "ok", cn, {}, {}, f, "rsa") : i \in {"root", "sub", "self"}, cn \in {A, P}, f \in Forms}, n : {A}, priv : {{"priv"}}, allow : {{"dots"}}, count : {1}]
  \cup [k : {"caller"}, ca : {"ok"}, c : {Plain(A, {}), Plain(P, {})}, n : {A, P}, priv : {{"priv"}}, allow : {{"dots"}}, count : {0, 1, 2}]
SignRows == [k : {"sign"}, key : {"pkcs1", "pkcs8"}, sig : {"ok", "flip", "trunc", "empty", "extra", "data", "otherkey"}, cert : {"own", "given", "empty", "other", "ec", "ed", "junk", "trunc"}, count : {1}]
            \cup [k : {"sign"}, key : {"pkcs1"}, sig : {"ok"}, cert : {"given"}, count : {0, 2}]
            \cup [k : {"sign"}, key : {"ec", "missing", "junk", "blank", "wrong"}, sig : {"ok"}, cert : {"given"}, count : {1}]
SignOK(x) == x.key \in {"pkcs1", "pkcs8"}
CheckOK(x) == SignOK(x) /\ x.count = 1 /\ ((x.cert \in {"own", "given", "empty"} /\ x.sig = "ok") \/ (x.cert = "other" /\ x.sig = "otherkey"))
PeerRows == [k : {"tls"}, ca : {"ok"}, c : {Cert(i, u, t, "node.example", s, {}, "ok", "rsa") : i \in Issuers, u \in {"client", "server", "none"}, t \in Times, s \in {{}, {"node.example"}}}, h : {"node.example", "other.example"}, compat : BOOLEAN, noverify : {FALSE}]
  \cup [k : {"tls"}, ca : {"ok", "missing", "notpem", "othertoo"}, c : {Cert(i, "both", "ok", cn, s, {}, "ok", a) : i \in {"root", "other", "self"}, cn \in {"node.example", "x.example"}, s \in {{}, {"node.example"}, {"*.example"}, {"x.example"}, {"ip"}, {"ip", "node.example"}}, a \in {"rsa", "ec"}},
        h : {"node.example", "other.example", "ip"}, compat : BOOLEAN, noverify : {FALSE}]
  \cup [k : {"tls"}, ca : {"ok"}, c : {Cert(i, "both", "ok", "node.example", s, {}, "ok", "rsa") : i \in {"root", "self"}, s \in {{}, {"node.example"}}}, h : {"node.example", "other.example"}, compat : {FALSE}, noverify : {TRUE}]
(* clients connecting to a server that requires certificates *)
ServeRows == [k : {"serve"}, ca : Authorities, c : {Cert(i, u, t, A, {}, {}, "ok", a) : i \in Issuers, u \in {"client", "server", "none"}, t \in Times, a \in {"rsa", "ec"}}, compat : BOOLEAN, noverify : {FALSE}]
             \cup [k : {"serve"}, ca : {"ok"}, c : {Cert(i, "client", "ok", A, {}, {}, "ok", "rsa") : i \in Issuers}, compat : BOOLEAN, noverify : {TRUE}]
Rows == VerifyRows \cup CallerRows \cup SignRows \cup PeerRows \cup ServeRows
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
(* whether a trusted certificate in a block labelled as something else is accepted is not claimed *)
Odd == r.k \in {"verify", "caller"} /\ r.c.form \in {"block", "otherblock"} /\ Chained(r.ca, r.c)
Want == CASE Odd -> "either"
          [] r.k = "verify" -> IF Accept(r.ca, r.c, r.n) THEN "ok" ELSE "refuse"
          [] r.k = "caller" -> Caller(r.ca, r.c, r.n, r.priv, r.allow, r.count)
          [] r.k = "sign" -> IF ~SignOK(r) THEN "error" ELSE IF CheckOK(r) THEN "ok" ELSE "refuse"
          [] r.k = "serve" -> IF Trusted(r.ca, r.c, "client") THEN "ok" ELSE "refuse"
          [] OTHER -> IF Peer(r.ca, r.c, r.h, r.compat, r.noverify) THEN "ok" ELSE "refuse"
----
(* nothing of an authority that is not trusted is ever accepted, whatever it names *)
OnlyTrusted == r.k \in {"verify", "caller"} /\ Want \notin {"refuse", "either"} => r.c.iss \in {"root", "sub"} \/ r.ca = "othertoo"
OnlyReadable == r.k \in {"verify", "caller"} /\ Want \notin {"refuse", "either"} => r.c.form \in {"ok", "lead"} /\ r.ca \in {"ok", "othertoo"}
OnlyCurrent == r.k \in {"verify", "caller"} /\ Want \notin {"refuse", "either"} => r.c.time = "ok"
PrivilegedNamed == r.k = "caller" /\ Want = "privileged" => P \in Names(r.c) /\ r.priv # {}
(* unprivileged callers speak only for a name of their certificate *)
OwnName == r.k = "caller" /\ Want = "allow" => r.n \in Names(r.c)
(* accepting certificates without alternative names never accepts more names of certificates that have them *)
CompatSame == r.k = "tls" /\ r.c.sans # {} /\ ~r.noverify => Peer(r.ca, r.c, r.h, TRUE, FALSE) = Peer(r.ca, r.c, r.h, FALSE, FALSE)
Emit == PrintT("@@" \o ToJson([r |-> r, want |-> Want]))
=============================================================================
