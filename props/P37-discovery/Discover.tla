------------------------------ MODULE Discover ------------------------------
(* Which nodes does a discovery source report? A fixed fleet, every filter of up to MaxItems conditions. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, MaxItems
VARIABLES r
N == <<"web1.example.net", "web2.example.net", "db1.example.net", "db2.example.com", "web10.example.net", "lost.example.net">>
Nodes == 1..6
In(c) == IF c = "mt" THEN {1, 2, 3, 5} ELSE IF c = "c2" THEN {1, 3, 4} ELSE IF c = "" THEN Nodes ELSE {}
(* what every condition holds for *)
Pql == "pql:inventory[certname] { facts.country = \"mt\" }"
Ids == ("web1.example.net" :> {1}) @@ ("db2.example.com" :> {4}) @@ ("/^web/" :> {1, 2, 5}) @@ ("/web\\d\\./" :> {1, 2}) @@ ("/^[cd]b/" :> {3, 4}) @@ ("gone.example.net" :> {}) @@ ("/gone/" :> {})
       @@ (Pql :> {1, 3}) @@ ("db1.example.net" :> {3})
Agents == ("package" :> {1, 3}) @@ ("rpcutil" :> {1, 2, 3, 4}) @@ ("/ack/" :> {1, 3}) @@ ("/a[cp]k/" :> {1, 3}) @@ ("puppet" :> {1, 2}) @@ ("gone" :> {})
Classes == ("apache" :> {1, 5}) @@ ("role::web" :> {1, 2}) @@ ("/^role::/" :> {1, 2, 3}) @@ ("/apache/" :> {1, 2, 5}) @@ ("common" :> {1, 2, 3, 5}) @@ ("gone" :> {})
Facts == ("country=mt" :> {1, 3}) @@ ("country!=mt" :> {2, 5}) @@ ("cpus>=10" :> {2, 3}) @@ ("cpus < 8" :> {1}) @@ ("country=/^(uk|de)$/" :> {2, 5}) @@ ("virtual=true" :> {1, 3}) @@ ("os.family=RedHat" :> {1})
          @@ ("cpus=10" :> {3}) @@ ("cpus!=10" :> {1, 2, 5}) @@ ("gone=1" :> {}) @@ ("country>b" :> {})
Compounds == ("with('apache') or with('country=uk')" :> {1, 2, 5}) @@ ("with('common') and not with('country=mt')" :> {2, 5}) @@ ("fact('cpus') >= 10" :> {2, 3})
Items == {<<"id", v>> : v \in DOMAIN Ids} \cup {<<"agent", v>> : v \in DOMAIN Agents} \cup {<<"class", v>> : v \in DOMAIN Classes} \cup {<<"fact", v>> : v \in DOMAIN Facts}
          \cup {<<"compound", v>> : v \in DOMAIN Compounds}
(* conditions of every kind together *)
Kinds == {<<"id", "/^web/">>, <<"id", "db1.example.net">>, <<"agent", "rpcutil">>, <<"agent", "puppet">>, <<"class", "common">>, <<"class", "/^role::/">>, <<"fact", "country=mt">>, <<"fact", "cpus>=10">>, <<"compound", "with('apache') or with('country=uk')">>}
Of(k, f) == {i \in f : i[1] = k}
M(i) == CASE i[1] = "id" -> Ids[i[2]] [] i[1] = "agent" -> Agents[i[2]] [] i[1] = "class" -> Classes[i[2]] [] i[1] = "fact" -> Facts[i[2]] [] OTHER -> Compounds[i[2]]
Small == {{}} \cup {{a} : a \in Items} \cup {{a, b} : a, b \in Items} \cup {s \in SUBSET Kinds : Cardinality(s) \in 3..5} \cup (IF MaxItems > 2 THEN {{a, b, c} : a, b, c \in Items} ELSE {})
(* any identity, and all of everything else *)
Matching(f) == {n \in Nodes : (Of("id", f) # {} => \E i \in Of("id", f) : n \in M(i)) /\ \A i \in f \ Of("id", f) : n \in M(i)}
Regex(i) == i[2] \in {"/^web/", "/web\\d\\./", "/^[cd]b/", "/gone/", Pql}
(* only exact identities: nobody is asked *)
ByName(f) == Of("id", f) # {} /\ Of("class", f) \cup Of("fact", f) \cup Of("compound", f) = {} /\ \A i \in Of("id", f) : ~Regex(i)
Res(ok, byname, set) == [ok |-> ok, byname |-> byname, nodes |-> {N[n] : n \in set}]
Names(f) == [ok |-> TRUE, byname |-> TRUE, nodes |-> {i[2] : i \in Of("id", f)}]
Inventory(f, c) == Res(TRUE, FALSE, Matching(f) \cap In(c))
Broadcast(f, c) == IF ByName(f) THEN Names(f) ELSE Res(TRUE, FALSE, Matching(f) \cap In(c))
(* the query language cannot express all *)
Pdb(f, c) == IF Of("compound", f) # {} THEN Res(FALSE, FALSE, {}) ELSE IF ByName(f) THEN Names(f) ELSE IF <<"fact", "country>b">> \in f THEN Res(FALSE, FALSE, {}) ELSE Res(TRUE, FALSE, Matching(f) \cap In(c))
Flat(f) == IF f \ Of("id", f) # {} THEN Res(FALSE, FALSE, {}) ELSE Res(TRUE, FALSE, Matching(f))
(* nodes without a fact are different things to different sources *)
PdbSays(f, c) == f \cap {<<"fact", "country!=mt">>, <<"fact", "cpus!=10">>} = {} \/ c = "mt"
Filters == {[f |-> f, c |-> c, src |-> s] : f \in Small, c \in {"mt", "c2"}, s \in {"inventory", "broadcast", "puppetdb", "flatfile"}}
FilterRows == {x \in Filters : /\ (x.src = "flatfile" => x.c = "mt") /\ (x.src = "puppetdb" => PdbSays(x.f, x.c))
                               /\ (x.src = "broadcast" => Cardinality(x.f) < 3 \/ x.f \subseteq Kinds) /\ (<<"fact", "country>b">> \in x.f \/ <<"id", Pql>> \in x.f => x.src = "puppetdb")}
------------------------------------------------------------------------------
(* named groups of an inventory *)
Groups == ("group:webs" :> {1, 2}) @@ ("group:mt" :> {1, 3}) @@ ("group:all" :> Nodes) @@ ("group:expr" :> {1, 2, 5}) @@ ("group:some" :> {1, 4}) @@ ("group:nobody" :> {})
GroupIds == DOMAIN Groups \cup {"group:unknown", "web1.example.net", "/^web/"}
GroupRows == [ids : {s \in SUBSET GroupIds : Cardinality(s) \in 1..3 /\ s \cap (DOMAIN Groups \cup {"group:unknown"}) # {}}, extra : {"", "agent", "agents", "class", "fact", "compound"}, c : {"mt", "c2"}]
Group(x) == IF x.extra \notin {"", "agent"} \/ ~(x.ids \subseteq DOMAIN Groups) THEN Res(FALSE, FALSE, {}) ELSE Res(TRUE, FALSE, UNION {Groups[g] : g \in x.ids})
------------------------------------------------------------------------------
(* inventory files: what is wrong with them, and is that looked at *)
FileRows == [bad : {"", "missing", "garbage", "schema", "noschema", "nonodes", "extra", "noname", "emptyname", "badgroup", "groupnofilter"}, yaml : BOOLEAN, novalidate : BOOLEAN]
File(x) == IF x.bad \in {"", "groupnofilter"} THEN Res(TRUE, FALSE, In("mt"))
           ELSE IF x.novalidate /\ x.bad \in {"extra", "badgroup"} THEN Res(TRUE, FALSE, In("mt"))
           ELSE Res(FALSE, FALSE, {})
FileSays(x) == x.novalidate => x.bad \in {"", "groupnofilter", "extra", "badgroup", "missing", "garbage", "schema", "noschema"}
------------------------------------------------------------------------------
(* lists of nodes in files *)
FlatRows == [fmt : {"text", "json", "yaml", "rpc", ""}, as : {"text", "json", "yaml", "rpc"}, how : {"file", "reader", "option", "none", "missing"},
             bad : {"", "empty", "badname", "spaces", "notlist"}, q : {"", "nodes", "gone", "blank"}]
FlatSays(x) == /\ (x.q # "" => x.as \in {"json", "yaml"} /\ x.fmt = x.as /\ x.bad = "")
               /\ (x.bad # "" => x.q = "" /\ (x.fmt = x.as \/ (x.fmt = "" /\ x.as = "text")))
               /\ (x.bad = "spaces" => x.as = "text") /\ (x.bad = "notlist" => x.as \in {"json", "yaml", "rpc"})
               \* JSON is YAML too
               /\ ~(x.fmt = "yaml" /\ x.as = "json" /\ x.bad # "")
FlatList(x) == IF x.how \in {"none", "missing"} \/ x.bad \in {"badname", "notlist"} \/ x.q \in {"gone", "blank"} THEN Res(FALSE, FALSE, {})
               ELSE IF x.fmt = x.as \/ (x.fmt = "" /\ x.as = "text") \/ (x.fmt = "yaml" /\ x.as = "json")
                    THEN (IF x.bad = "empty" THEN Res(TRUE, FALSE, {}) ELSE Res(TRUE, FALSE, Nodes))
               ELSE Res(FALSE, FALSE, {})
------------------------------------------------------------------------------
(* external commands *)
ExtRows == [cmd : {"config", "option", "call", "none", "blank", "absent"}, does : {"nodes", "none", "error", "exit", "garbage", "protocol", "hang", "noise", "silent"}, f : {{}} \cup {{a} : a \in Items}, c : {"mt", "c2"}, args : BOOLEAN]
ExtSays(x) == /\ (x.does # "nodes" => x.f = {} /\ x.c = "mt") /\ (x.cmd \in {"none", "blank", "absent"} => x.does = "nodes" /\ x.f = {} /\ ~x.args)
              /\ (x.f # {} => x.cmd = "config" /\ ~x.args) /\ (x.does = "hang" => x.cmd = "config" /\ x.args)
              /\ <<"fact", "country>b">> \notin x.f /\ <<"id", Pql>> \notin x.f
Ext(x) == IF x.cmd \in {"none", "blank", "absent"} \/ x.does \in {"error", "exit", "garbage", "protocol", "hang", "silent"} THEN Res(FALSE, FALSE, {})
          ELSE IF x.does = "none" THEN Res(TRUE, FALSE, {}) ELSE Res(TRUE, FALSE, Matching(x.f) \cap In(x.c))
------------------------------------------------------------------------------
(* when broadcast discovery stops listening, in steps of 100ms after publishing: *)
(* at the end of its timeout, or with a sliding window 3 after the last answer   *)
WinRows == [slide : BOOLEAN, to : {10, 15}, dflt : {5, 20}, slow : BOOLEAN, at : {<<a, b, c>> : a \in {2, 4, 7, 9, 13}, b \in {0, 2, 4, 5}, c \in {1, 2, 5}}]
Times(x) == <<x.at[1], x.at[1] + x.at[2], x.at[1] + x.at[2] + x.at[3]>>
(* not at the very moment it stops *)
WinSays(x) == (x.slide => ~x.slow) /\ \A i \in 1..3 : Times(x)[i] # x.to /\ Times(x)[i] # 20
RECURSIVE Heard(_, _)
Heard(x, i) == IF i = 0 THEN TRUE ELSE Heard(x, i - 1) /\ Times(x)[i] < x.to /\ (x.slide /\ i > 1 => x.at[i] <= 3)
Win(x) == Res(TRUE, FALSE, {i \in 1..3 : Heard(x, i)})
------------------------------------------------------------------------------
Rows == CASE Part = "filters" -> FilterRows
          [] Part = "groups" -> GroupRows
          [] Part = "files" -> {x \in FileRows : FileSays(x)}
          [] Part = "flat" -> {x \in FlatRows : FlatSays(x)}
          [] Part = "external" -> {x \in ExtRows : ExtSays(x)}
          [] Part = "window" -> {x \in WinRows : WinSays(x)}
V == CASE Part = "filters" -> (IF r.src = "inventory" THEN Inventory(r.f, r.c) ELSE IF r.src = "broadcast" THEN Broadcast(r.f, r.c) ELSE IF r.src = "puppetdb" THEN Pdb(r.f, r.c) ELSE Flat(r.f))
       [] Part = "groups" -> Group(r)
       [] Part = "files" -> File(r)
       [] Part = "flat" -> FlatList(r)
       [] Part = "external" -> Ext(r)
       [] Part = "window" -> Win(r)
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
(* the sources agree wherever they can answer *)
Agree == Part = "filters" /\ r.src \in {"broadcast", "puppetdb"} /\ V.ok /\ ~V.byname => V.nodes = Inventory(r.f, r.c).nodes
OwnCollective == Part = "filters" /\ r.src # "flatfile" /\ V.ok /\ ~V.byname => V.nodes \subseteq {N[n] : n \in In(r.c)}
MoreConditionsFewerNodes == Part = "filters" /\ V.ok => \A i \in r.f : i[1] # "id" => Matching(r.f) \subseteq Matching(r.f \ {i})
Emit == PrintT("@@" \o ToJson([r |-> r, v |-> V]))
=============================================================================
