------------------------------ MODULE Servers ------------------------------
(* Which servers a node connects to: its configuration, what DNS says, or the defaults, tried one source after
   another. A row is one configuration and one DNS zone; resolving walks through the sources. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Part
VARIABLES row, fn, left, asked, out
vars == <<row, fn, left, asked, out>>

(* how hosts can be written, with what they mean when the scheme is `nats` *)
Good == [plain  |-> [in |-> "h1.example:4222",                host |-> "h1.example",   port |-> 4222,  scheme |-> ""],
         spaces |-> [in |-> "  h2.example:1 ",                host |-> "h2.example",   port |-> 1,     scheme |-> ""],
         url    |-> [in |-> "nats://h3.example:4224",         host |-> "h3.example",   port |-> 4224,  scheme |-> "nats"],
         wss    |-> [in |-> "wss://h4.example:443",           host |-> "h4.example",   port |-> 443,   scheme |-> "wss"],
         v6     |-> [in |-> "[2001:db8::1]:4222",             host |-> "2001:db8::1",  port |-> 4222,  scheme |-> ""],
         v6url  |-> [in |-> "tls://[2001:db8::2]:65535",      host |-> "2001:db8::2",  port |-> 65535, scheme |-> "tls"],
         ip     |-> [in |-> "192.0.2.1:4222",                 host |-> "192.0.2.1",    port |-> 4222,  scheme |-> ""],
         short  |-> [in |-> "puppet:04223",                   host |-> "puppet",       port |-> 4223,  scheme |-> ""],
         slash  |-> [in |-> "//h8.example:4222",              host |-> "h8.example",   port |-> 4222,  scheme |-> ""]]
Bad == [noport |-> "h5.example", urlnoport |-> "nats://h5.example", badport |-> "h6.example:abc", bigport |-> "h7.example:65536",
        negport |-> "h7.example:-1", empty |-> "", openv6 |-> "2001:db8::3:4222", two |-> "h1.example:1:2"]
Kinds == DOMAIN Good \cup DOMAIN Bad
In(k) == IF k \in DOMAIN Good THEN Good[k].in ELSE Bad[k]
Ins(l) == [i \in DOMAIN l |-> In(l[i])]
Lists2 == {<<>>} \cup {<<a>> : a \in Kinds} \cup {<<a, b>> : a \in Kinds, b \in Kinds}
Few == {<<>>, <<"plain">>, <<"url", "v6">>, <<"wss", "noport">>, <<"badport">>}

Err == [err |-> TRUE, servers |-> <<>>]
Ok(s) == [err |-> FALSE, servers |-> s]
Srv(h, p, s) == [host |-> h, port |-> p, scheme |-> s]
Parse(l, scheme) ==
  IF \E i \in DOMAIN l : l[i] \notin DOMAIN Good THEN Err
  ELSE IF scheme = "" /\ \E i \in DOMAIN l : Good[l[i]].scheme = "" THEN Err
  ELSE Ok([i \in DOMAIN l |-> Srv(Good[l[i]].host, Good[l[i]].port, IF Good[l[i]].scheme # "" THEN Good[l[i]].scheme ELSE scheme)])

(* DNS: the answer for a name, in order of priority *)
Names == {"_mcollective-server._tcp", "_x-puppet-mcollective._tcp", "_mcollective-federation_server._tcp", "_x-puppet-mcollective_federation._tcp",
          "_x-puppet-db._tcp", "_x-puppet._tcp", "_mcollective-broker._tcp", "_one._tcp", "_two._tcp"}
Answers == {"none", "one", "two"}
Answer(z, n) == CASE z[n] = "none" -> <<>>
                  [] z[n] = "one"  -> <<[host |-> n \o ".a.example", port |-> 1001]>>
                  [] z[n] = "two"  -> <<[host |-> n \o ".b.example", port |-> 2002], [host |-> n \o ".a.example", port |-> 1001]>>
(* the domain the names are looked up in *)
Domain(r) == IF r.domain # "" THEN r.domain ELSE r.facter
HasDomain(r) == Domain(r) # "missing"
Zone(some) == [n \in Names |-> IF n \in DOMAIN some THEN some[n] ELSE "none"]

Base == [fedenv |-> "", fedcfg |-> <<>>, mw |-> <<>>, fed |-> <<>>, peers |-> <<>>, pdbhost |-> "", pdbport |-> 8081, srv |-> FALSE,
         domain |-> "example.net", facter |-> "facts.net", zone |-> Zone(<<>>)]
With(f) == [k \in DOMAIN Base |-> IF k \in DOMAIN f THEN f[k] ELSE Base[k]]
Rows ==
  CASE Part = "middleware" -> {With([fedenv |-> e, fedcfg |-> c, mw |-> m, fed |-> f, srv |-> s,
         zone |-> Zone([n \in {"_mcollective-server._tcp", "_x-puppet-mcollective._tcp"} |-> IF n = "_mcollective-server._tcp" THEN a ELSE b])])
           : e \in {"", "fed1", " fed1 ,fed2"}, c \in {<<>>, <<"fed3">>}, m \in Few, f \in {<<>>, <<"plain">>, <<"wss", "noport">>}, s \in BOOLEAN,
             a \in Answers, b \in Answers}
    [] Part = "federation" -> {With([fedenv |-> e, fedcfg |-> c, mw |-> m, fed |-> f, srv |-> s,
         zone |-> Zone([n \in {"_mcollective-federation_server._tcp", "_x-puppet-mcollective_federation._tcp", "_mcollective-server._tcp"} |->
                          IF n = "_mcollective-federation_server._tcp" THEN a ELSE IF n = "_mcollective-server._tcp" THEN "one" ELSE b])])
           : e \in {"", "fed1"}, c \in {<<>>, <<"fed3", " fed4">>}, m \in {<<>>, <<"plain">>}, f \in Few, s \in BOOLEAN, a \in Answers, b \in Answers}
    [] Part = "puppetdb" -> {With([pdbhost |-> h, pdbport |-> p, srv |-> s,
         zone |-> Zone([n \in {"_x-puppet-db._tcp", "_x-puppet._tcp"} |-> IF n = "_x-puppet-db._tcp" THEN a ELSE b])])
           : h \in {"", "pdb.example"}, p \in {8081, 443}, s \in BOOLEAN, a \in Answers, b \in Answers}
    [] Part = "peers" -> {With([peers |-> l, srv |-> s, zone |-> Zone([n \in {"_mcollective-broker._tcp"} |-> a])])
           : l \in Few, s \in BOOLEAN, a \in Answers}
    [] Part = "try" -> {With([srv |-> s, zone |-> Zone([n \in {"_one._tcp", "_two._tcp"} |-> IF n = "_one._tcp" THEN a ELSE b])])
           : s \in BOOLEAN, a \in Answers, b \in Answers}
    [] Part = "domain" -> {With([fedenv |-> e, mw |-> m, domain |-> d, facter |-> f, srv |-> s, zone |-> [n \in Names |-> a]])
           : e \in {"", "fed1"}, m \in {<<>>, <<"ip">>}, d \in {"", "example.net"}, f \in {"missing", "facts.net"}, s \in BOOLEAN, a \in {"none", "two"}}
    [] Part = "parse" -> {With([mw |-> l, fed |-> l, peers |-> l]) : l \in Lists2}

Fns == {"middleware", "federation", "puppetdb", "peers", "try"}
Collectives(r) == CASE r.fedenv = "fed1" -> <<"fed1">>
                    [] r.fedenv = " fed1 ,fed2" -> <<"fed1", "fed2">>
                    [] r.fedcfg = <<"fed3", " fed4">> -> <<"fed3", "fed4">>
                    [] OTHER -> r.fedcfg
Federated(r) == Collectives(r) # <<>>

(* the sources in the order they are tried *)
Hosts(l) == [t |-> "hosts", l |-> l]
Dns(n, must) == [t |-> "dns", n |-> n, must |-> must]
Default(s) == [t |-> "default", s |-> s]
FedSources(r) == <<Hosts(r.fed), Dns("_mcollective-federation_server._tcp", TRUE), Dns("_x-puppet-mcollective_federation._tcp", TRUE), Default(<<>>)>>
Sources(r, f) ==
  CASE f = "federation" \/ (f = "middleware" /\ Federated(r)) -> FedSources(r)
    [] f = "middleware" -> <<Hosts(r.mw), Dns("_mcollective-server._tcp", FALSE), Dns("_x-puppet-mcollective._tcp", FALSE), Default(<<Srv("puppet", 4222, "nats")>>)>>
    [] f = "puppetdb" ->
         IF r.pdbhost # "" THEN <<Default(<<Srv(r.pdbhost, r.pdbport, "https")>>)>>
         ELSE IF ~r.srv THEN <<Default(<<Srv("puppet", r.pdbport, "https")>>)>>
         ELSE <<Dns("_x-puppet-db._tcp", TRUE), Dns("_x-puppet._tcp", TRUE), Default(<<Srv("puppet", r.pdbport, "https")>>)>>
    [] f = "peers" -> <<Dns("_mcollective-broker._tcp", FALSE), Hosts(r.peers), Default(<<>>)>>
    [] f = "try" -> <<Dns("_one._tcp", FALSE), Dns("_two._tcp", FALSE), Default(<<Srv("def.example", 99, "")>>)>>

SchemeOf(f) == CASE f = "puppetdb" -> "https" [] f = "try" -> "" [] OTHER -> "nats"
(* puppet servers only tell where PuppetDB is, not on what port *)
Found(r, f, n) == LET a == Answer(r.zone, n) IN [i \in DOMAIN a |-> Srv(a[i].host, IF n = "_x-puppet._tcp" THEN r.pdbport ELSE a[i].port, SchemeOf(f))]

Init == row \in Rows /\ fn \in Fns /\ left = Sources(row, fn) /\ asked = {} /\ out = [t |-> "resolving"]
Finish(o) == out' = [t |-> "done", r |-> o]
TryHosts ==
  /\ out.t = "resolving" /\ Head(left).t = "hosts"
  /\ IF Head(left).l = <<>> THEN left' = Tail(left) /\ UNCHANGED <<out, asked>>
     ELSE left' = <<>> /\ Finish(Parse(Head(left).l, "nats")) /\ UNCHANGED asked
  /\ UNCHANGED <<row, fn>>
TryDns ==
  /\ out.t = "resolving" /\ Head(left).t = "dns"
  /\ LET s == Head(left) IN
     IF ~row.srv \/ ~HasDomain(row)
     THEN /\ UNCHANGED asked
          /\ IF s.must THEN left' = <<>> /\ Finish(Err) ELSE left' = Tail(left) /\ UNCHANGED out
     ELSE /\ asked' = asked \cup {s.n \o "." \o Domain(row)}
          /\ IF Answer(row.zone, s.n) # <<>> THEN left' = <<>> /\ Finish(Ok(IF fn = "try" THEN <<Found(row, fn, s.n)[1]>> ELSE Found(row, fn, s.n)))
             ELSE left' = Tail(left) /\ UNCHANGED out
  /\ UNCHANGED <<row, fn>>
UseDefault ==
  /\ out.t = "resolving" /\ Head(left).t = "default"
  /\ left' = <<>> /\ Finish(Ok(Head(left).s)) /\ UNCHANGED <<row, fn, asked>>
Next == TryHosts \/ TryDns \/ UseDefault
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Done == out.t = "done"
DnsOnlyWhenEnabled == ~row.srv => asked = {}
ConfiguredWins == (fn = "middleware" /\ ~Federated(row) /\ row.mw # <<>>) => asked = {} /\ (Done => out.r = Parse(row.mw, "nats"))
AlwaysSomewhere == (Done /\ ~out.r.err /\ (fn \in {"puppetdb", "try"} \/ (fn = "middleware" /\ ~Federated(row)))) => out.r.servers # <<>>
FederationNeverLeaks == (Done /\ fn = "middleware" /\ Federated(row)) => \A i \in DOMAIN out.r.servers :
                          \A n \in {"_mcollective-server._tcp", "_x-puppet-mcollective._tcp"} : \A j \in DOMAIN Answer(row.zone, n) :
                             out.r.servers[i].host # Answer(row.zone, n)[j].host
OneSource == Cardinality({n \in Names : n \o "." \o Domain(row) \in asked /\ Answer(row.zone, n) # <<>>}) <= 1
Schemes == (Done /\ fn # "try") => \A i \in DOMAIN out.r.servers : out.r.servers[i].scheme # ""

Emit == Done => PrintT("@@" \o ToJson([
   row |-> [row EXCEPT !.mw = Ins(row.mw), !.fed = Ins(row.fed), !.peers = Ins(row.peers), !.zone = [n \in Names |-> Answer(row.zone, n)]],
   dom |-> Domain(row), fn |-> fn, out |-> out.r, asked |-> asked, cols |-> Collectives(row), isfed |-> Federated(row)]))
=============================================================================
