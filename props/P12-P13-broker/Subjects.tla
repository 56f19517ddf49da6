------------------------------- MODULE Subjects -------------------------------
(* What each role may publish and receive, over a universe of concrete      *)
(* subjects. ME/MES: the md5 and sha256 private inbox of the connection's   *)
(* own name; OTHER: those of somebody else.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Cs == {"mt", "c2", "c3"}                                    \* collectives
Per(c) == {c \o x : x \in {".broadcast.agent.rpcutil", ".broadcast.agent.registration", ".broadcast.service.svc", ".node.me.example",
                           ".node.other.example", ".reply.ME.x", ".reply.MES.x", ".reply.OTHER.x", ".governor.gov", ".submission.in.s"}}
             \cup {"choria.federation." \o c \o ".collective", "choria.federation." \o c \o ".federation"}
Fleet == UNION {{c \o ".broadcast.agent.rpcutil", c \o ".broadcast.agent.registration", c \o ".broadcast.service.svc",
                 c \o ".node.me.example", c \o ".node.other.example", "choria.federation." \o c \o ".federation"} : c \in Cs \cup {"provisioning"}}
Replies == UNION {{c \o ".reply.ME.x", c \o ".reply.MES.x", c \o ".reply.OTHER.x"} : c \in Cs \cup {"provisioning"}}
OwnReplies == UNION {{c \o ".reply.ME.x", c \o ".reply.MES.x"} : c \in Cs \cup {"provisioning"}}
GovEvent == "choria.lifecycle.event.governor.enter"
Lifecycle == {"choria.lifecycle.event.startup.server", "choria.lifecycle.event.startup.provision_mode_server", GovEvent}
Machine == {"choria.machine.transition", "choria.machine.watcher.exec.state"}
JsRead == {"INFO", "STREAM.NAMES", "STREAM.LIST", "CONSUMER.DELETE.S.C", "CONSUMER.NAMES.S", "CONSUMER.LIST.S"}
JsServer == {"STREAM.INFO.S", "STREAM.MSG.GET.S", "STREAM.MSG.DELETE.S", "DIRECT.GET.S", "DIRECT.GET.S.a.b", "CONSUMER.CREATE.S", "CONSUMER.CREATE.S.n.f",
             "CONSUMER.DURABLE.CREATE.S.C", "CONSUMER.INFO.S.C", "CONSUMER.MSG.NEXT.S.C"}
JsAdmin == {"STREAM.CREATE.S", "STREAM.UPDATE.S", "STREAM.DELETE.S", "STREAM.PURGE.S", "STREAM.SNAPSHOT.S", "STREAM.RESTORE.S", "SERVER.REMOVE", "ACCOUNT.PURGE.A"}
Js(S) == {"$JS.API." \o x : x \in S}
JsC(S) == {"choria.streams." \o x : x \in S}
JsFlow == {"$JS.ACK.S.C.1", "$JS.FC.S.x"}
LeaderInfo == "$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION"
LeaderKV == {"$KV.CHORIA_LEADER_ELECTION.lead", "$KV.CHORIA_LEADER_ELECTION.provisioner"}
Kv == {"$KV.CFG.key"} \cup LeaderKV
Obj == {"$O.b.C.x"}
Extra == {"acme.extra.1"}
Prov == {"provisioning.registration.x", "provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.choria_provision", "provisioning.broadcast.agent.choria_util"}
JsAll == Js(JsRead \cup JsServer \cup JsAdmin) \cup JsFlow \cup {LeaderInfo, "$JS.EVENT.ADVISORY.API"}
Wild == {"*.reply.>", "mt.reply.>", "mt.reply.*.x", ">", "mt.node.>", "mt.node.*", "*.broadcast.agent.>", "mt.broadcast.>", "choria.>", "$JS.>", "$KV.>", "*.*.*.*"}
U == UNION {Per(c) : c \in Cs} \cup Per("provisioning") \cup Lifecycle \cup Machine \cup JsAll \cup JsC(JsRead \cup JsServer \cup JsAdmin) \cup {"choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION"}
      \cup Kv \cup Obj \cup Extra \cup Prov
      \cup {"$SYS.REQ.USER.INFO", "$SYS.REQ.SERVER.PING", "$SYS.ACCOUNT.A.CONNECT", "choria.republish.x", "acme.republish.x", "some.thing", "foo"}
All == U \cup Wild
------------------------------------------------------------------------------
(* clients: p is the set of permissions in the token, or {"nil"} *)
Has(p, x) == x \in p
ClientPub(p, extra) ==
  IF Has(p, "org") THEN All ELSE
  {"$SYS.REQ.USER.INFO"} \cup (IF extra THEN Extra ELSE {})
  \cup (IF Has(p, "sadmin") THEN JsAll \cup {"$JS.>"} ELSE {})
  \cup (IF Has(p, "suser") THEN Js(JsRead \cup JsServer) \cup JsFlow \cup {LeaderInfo, "$KV.>"} \cup Kv \cup Obj ELSE {})
  \cup (IF Has(p, "election") THEN {LeaderInfo} \cup LeaderKV ELSE {})
  \cup (IF Has(p, "gov") /\ (Has(p, "suser") \/ Has(p, "sadmin")) THEN {c \o ".governor.gov" : c \in Cs \cup {"provisioning"}} \cup {GovEvent} ELSE {})
  \cup (IF Has(p, "fleet") \/ Has(p, "signed")
        THEN Fleet \cup {"provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.choria_provision", "provisioning.broadcast.agent.choria_util",
                         "mt.node.>", "mt.node.*", "*.broadcast.agent.>"} ELSE {})
ClientSub(p, ou, extra) ==
  IF Has(p, "org") THEN All ELSE
  OwnReplies \cup (IF extra THEN Extra ELSE {})
  \cup (IF Has(p, "sadmin") THEN {"$JS.EVENT.ADVISORY.API"} ELSE {})
  \cup (IF Has(p, "suser") THEN {ou \o ".republish.x"} ELSE {})
  \cup (IF Has(p, "events") THEN Lifecycle \cup Machine ELSE {})
------------------------------------------------------------------------------
(* servers *)
ServerPub(p, cs, ou, extra) ==
  IF cs = {} THEN {} ELSE
  Lifecycle \cup Machine \cup (IF extra THEN Extra ELSE {})
  \cup UNION {{c \o ".reply.ME.x", c \o ".reply.MES.x", c \o ".reply.OTHER.x", c \o ".broadcast.agent.registration", "choria.federation." \o c \o ".collective"}
              \cup (IF c = "mt" THEN {"mt.reply.>", "mt.reply.*.x"} ELSE {})
              \cup (IF Has(p, "submission") THEN {c \o ".submission.in.s"} ELSE {})
              \cup (IF Has(p, "gov") /\ Has(p, "streams") THEN {c \o ".governor.gov"} ELSE {}) : c \in cs}
  \cup (IF Has(p, "streams") THEN (IF ou = "choria" THEN Js(JsServer) \cup {LeaderInfo} ELSE JsC(JsServer) \cup {"choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION"}) \cup JsFlow ELSE {})
ServerSub(p, cs, ou) ==
  UNION {{c \o ".broadcast.agent.rpcutil", c \o ".broadcast.agent.registration", c \o ".node.me.example", c \o ".reply.ME.x", c \o ".reply.MES.x"}
         \cup (IF Has(p, "service") THEN {c \o ".broadcast.service.svc"} ELSE {}) : c \in cs}
  \cup (IF cs # {} /\ Has(p, "streams") THEN {ou \o ".republish.x"} ELSE {})
------------------------------------------------------------------------------
(* roles without permissions of their own; concrete subjects only *)
InCs(S) == UNION {{c \o x : x \in S} : c \in Cs \cup {"provisioning"}}
DefaultServerPub == (U \ (Fleet \cup Prov)) \cup {"provisioning.registration.x"}
DefaultServerSub == U \ (Replies \cup Lifecycle \cup {"choria.federation." \o c \o x : c \in Cs \cup {"provisioning"}, x \in {".collective", ".federation"}})
Broad == InCs({".broadcast.agent.rpcutil", ".broadcast.agent.registration", ".broadcast.service.svc", ".node.me.example", ".node.other.example"}) \cup (Prov \ {"provisioning.registration.x"})
PubSubBoth == U \ (Broad \cup Replies \cup Lifecycle \cup Machine \cup {"choria.federation." \o c \o x : c \in Cs \cup {"provisioning"}, x \in {".collective", ".federation"}})
ProvServerPub == Lifecycle \cup {"provisioning.registration.x"} \cup {"provisioning.reply." \o x : x \in {"ME.x", "MES.x", "OTHER.x"}}
ProvServerSub == {"provisioning.node.me.example", "provisioning.node.other.example", "provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.rpcutil",
                  "provisioning.broadcast.agent.choria_util", "provisioning.broadcast.agent.choria_provision"}
==============================================================================
