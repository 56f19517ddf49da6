-------------------------------- MODULE Perm --------------------------------
EXTENDS Subjects, Json
VARIABLES r
CPerms == {"org", "sadmin", "suser", "events", "election", "gov", "fleet", "signed"}
SPerms == {"streams", "submission", "gov", "service"}
Clients == [k : {"client"}, p : SUBSET CPerms \cup {{"nil"}}, ou : {"choria"}, extra : BOOLEAN, cs : {{}}]
            \cup [k : {"client"}, p : {{"suser"}, {"sadmin", "gov"}, {}}, ou : {"acme"}, extra : BOOLEAN, cs : {{}}]
Servers == [k : {"server"}, p : SUBSET SPerms \cup {{"nil"}}, ou : {"choria", "acme"}, extra : BOOLEAN, cs : {{}, {"mt"}, {"c2"}, {"mt", "c2"}}]
Roles == [k : {"defaultserver", "denied", "pubsub", "provserver", "open"}, p : {{}}, ou : {"choria"}, extra : {FALSE}, cs : {{}}]
Init == r \in Clients \cup Servers \cup Roles
Spec == Init /\ [][UNCHANGED r]_r
Pub == CASE r.k = "client" -> ClientPub(r.p, r.extra) [] r.k = "server" -> ServerPub(r.p, r.cs, r.ou, r.extra)
         [] r.k = "defaultserver" -> DefaultServerPub [] r.k = "pubsub" -> PubSubBoth [] r.k = "provserver" -> ProvServerPub
         [] r.k = "open" -> U [] OTHER -> {}
Sub == CASE r.k = "client" -> ClientSub(r.p, r.ou, r.extra) [] r.k = "server" -> ServerSub(r.p, r.cs, r.ou)
         [] r.k = "defaultserver" -> DefaultServerSub [] r.k = "pubsub" -> PubSubBoth [] r.k = "provserver" -> ProvServerSub
         [] r.k = "open" -> U [] OTHER -> {}
Others == UNION {{c \o ".reply.OTHER.x"} : c \in Cs}
(* the guarantees in words *)
NoFleetWithoutRight == r.k # "client" \/ r.p \cap {"fleet", "signed", "org"} # {} \/ Pub \cap Fleet = {}
ServersNeverRequest == r.k \in {"server", "defaultserver", "denied", "pubsub", "provserver"} =>
                         \A s \in Pub \cap Fleet : s \in {c \o ".broadcast.agent.registration" : c \in r.cs} \cup (IF r.k = "pubsub" THEN {} ELSE {})
OwnInboxOnly == r.k \in {"client", "server", "provserver", "denied", "pubsub", "defaultserver"} /\ "org" \notin r.p => Sub \cap Others = {}
OwnCollectives == r.k = "server" => \A c \in Cs \ r.cs : Sub \cap Per(c) = {} /\ Pub \cap Per(c) = {}
NoStreamAdmin == (r.k = "client" /\ r.p \cap {"org", "sadmin"} = {}) \/ r.k = "server" => Pub \cap Js(JsAdmin) = {}
Emit == PrintT("@@" \o ToJson([r |-> [k |-> r.k, p |-> r.p, ou |-> r.ou, extra |-> r.extra, cs |-> r.cs], pub |-> Pub, sub |-> Sub,
                                u |-> IF r.k \in {"client", "server"} THEN "all" ELSE "concrete"]))
=============================================================================
