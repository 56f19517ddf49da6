------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* Messages as Choria nests them: an inner request or reply, its secure     *)
(* envelope with integrity data, and the transport with its headers, in     *)
(* both protocol versions.  The wire may change any field of any layer; the *)
(* receiver unpacks the three layers.  Signatures and hashes are modelled   *)
(* as injective constructors, so integrity holds exactly when the message   *)
(* enclosed is the one the integrity data was made for.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Vers  == {"v1", "v2"}
Kinds == {"request", "reply"}
Other(x) == CASE x = "v1" -> "v2" [] x = "v2" -> "v1" [] x = "request" -> "reply" [] x = "reply" -> "request"

Proto(layer, kind, ver) == <<layer, IF layer = "transport" THEN "any" ELSE kind, ver>>

InnerFields(kind) == {"body", "id", "agent", "sender", "time"} \cup (IF kind = "request" THEN {"caller", "coll", "ttl", "filter"} ELSE {})
FieldVals == {"orig", "alt", "absent", "null", "empty", "type"}

Sig(k, x)  == [how |-> "sig", key |-> k, of |-> x]
Hash(x)    == [how |-> "hash", key |-> "none", of |-> x]
NoBody == [proto |-> <<"none", "none", "none">>, f |-> [x \in {"none"} |-> "orig"]]
NoMac      == [how |-> "none", key |-> "none", of |-> NoBody]

InnerOf(kind, ver) == [proto |-> Proto("inner", kind, ver), f |-> [x \in InnerFields(kind) |-> "orig"]]
SecureOf(kind, ver, inner) ==
  [proto |-> Proto("secure", kind, ver), body |-> inner,
   mac   |-> IF kind = "request" THEN Sig("caller", inner) ELSE Hash(inner),
   cred  |-> IF kind = "request" THEN "caller" ELSE "none"]
NoFed == [id |-> "", reply |-> "", targets |-> "none"]
Fed   == [id |-> "fid", reply |-> "freply", targets |-> "two"]
Hdr(fed) == [reply |-> "rt", sender |-> "snd", fed |-> IF fed THEN Fed ELSE NoFed]
Msg(kind, ver, fed) == [proto |-> Proto("transport", kind, ver), data |-> SecureOf(kind, ver, InnerOf(kind, ver)), hdr |-> Hdr(fed)]

(*********************** what the wire can do *****************************)
Ops == {"alt", "absent", "null", "empty", "type"}
None == [layer |-> "none", field |-> "none", op |-> "none"]
Tampers(kind) ==
  {None}
  \cup [layer : {"inner"}, field : InnerFields(kind), op : Ops]
  \cup [layer : {"inner"}, field : {"proto"}, op : {"otherver", "otherkind", "unknown", "absent", "null"}]
  \cup [layer : {"secure"}, field : {"mac"}, op : Ops \cup {"trunc"}]
  \cup (IF kind = "request" THEN [layer : {"secure"}, field : {"cred"}, op : Ops \cup {"stranger"}] ELSE {})
  \cup [layer : {"secure"}, field : {"proto"}, op : {"otherver", "otherkind", "unknown", "null"}]
  \cup [layer : {"secure"}, field : {"body"}, op : {"absent", "null", "empty", "type", "replay"}]
  \cup [layer : {"secure"}, field : {"whole"}, op : {"null", "list", "string", "emptyobj", "trunc", "garbage"}]
  \cup [layer : {"transport"}, field : {"proto"}, op : {"otherver", "unknown", "absent", "null", "inner"}]
  \cup [layer : {"transport"}, field : {"data"}, op : {"absent", "null", "empty", "type"}]
  \cup [layer : {"transport"}, field : {"whole"}, op : {"null", "list", "emptyobj", "trunc", "garbage", "empty"}]
  \cup [layer : {"header"}, field : {"reply", "sender", "fedid", "fedreply", "fedtargets"}, op : {"alt", "absent"}]
  \cup [layer : {"header"}, field : {"fed", "all"}, op : {"absent", "null"}]
  \* the integrity data of replies is an unkeyed hash: the wire can make it fit a message of another type
  \cup (IF kind = "reply" THEN [layer : {"rehash"}, field : {"proto"}, op : {"otherver", "otherkind", "unknown"}] \cup [layer : {"rehash"}, field : {"env"}, op : {"null"}] ELSE {})
  \* single byte changes of the whole secure envelope, enumerated by the driver
  \cup [layer : {"bytes"}, field : {"secure"}, op : {"flip", "drop", "dup"}]

Unparsable == [bad |-> TRUE]
MacOf(op, old) == IF op = "alt" THEN [old EXCEPT !.of = NoBody] ELSE NoMac
PV(op, layer, kind, ver) ==
  CASE op = "otherver"  -> Proto(layer, kind, Other(ver))
    [] op = "otherkind" -> Proto(layer, Other(kind), ver)
    [] op = "inner"     -> Proto("inner", kind, ver)
    [] OTHER            -> <<layer, "unknown", "unknown">>

Apply(t, m, kind, ver) ==
  CASE t.layer = "none" -> m
    [] t.layer = "inner" /\ t.field # "proto" -> [m EXCEPT !.data.body.f[t.field] = t.op]
    [] t.layer = "inner" /\ t.field = "proto" -> [m EXCEPT !.data.body.proto = PV(t.op, "inner", kind, ver)]
    [] t.layer = "secure" /\ t.field = "mac" -> [m EXCEPT !.data.mac = MacOf(t.op, @)]
    [] t.layer = "secure" /\ t.field = "cred" -> [m EXCEPT !.data.cred = t.op]
    [] t.layer = "secure" /\ t.field = "proto" -> [m EXCEPT !.data.proto = PV(t.op, "secure", kind, ver)]
    [] t.layer = "secure" /\ t.field = "body" -> [m EXCEPT !.data.body = [proto |-> IF t.op = "replay" THEN Proto("inner", kind, ver) ELSE <<>>,
                                                                         f |-> [x \in InnerFields(kind) |-> IF t.op = "replay" THEN "alt" ELSE "absent"]]]
    [] t.layer = "secure" /\ t.field = "whole" -> [m EXCEPT !.data = Unparsable]
    [] t.layer = "transport" /\ t.field = "proto" -> [m EXCEPT !.proto = PV(t.op, "transport", kind, ver)]
    [] t.layer = "transport" -> [m EXCEPT !.data = Unparsable]
    [] t.layer = "header" /\ t.field \in {"reply", "sender"} -> [m EXCEPT !.hdr[t.field] = IF t.op = "alt" THEN "alt" ELSE ""]
    [] t.layer = "header" /\ t.field = "fedid" -> [m EXCEPT !.hdr.fed.id = IF t.op = "alt" THEN "alt" ELSE ""]
    [] t.layer = "header" /\ t.field = "fedreply" -> [m EXCEPT !.hdr.fed.reply = IF t.op = "alt" THEN "alt" ELSE ""]
    [] t.layer = "header" /\ t.field = "fedtargets" -> [m EXCEPT !.hdr.fed.targets = IF t.op = "alt" THEN "alt" ELSE "none"]
    [] t.layer = "header" /\ t.field = "fed" -> [m EXCEPT !.hdr.fed = NoFed]
    [] t.layer = "header" /\ t.field = "all" -> [m EXCEPT !.hdr = [reply |-> "", sender |-> "", fed |-> NoFed]]
    [] t.layer = "rehash" -> LET b == [m.data.body EXCEPT !.proto = IF t.field = "env" THEN <<"no", "envelope", "at all">> ELSE PV(t.op, "inner", kind, ver)] IN [m EXCEPT !.data.body = b, !.data.mac = Hash(b)]
    [] t.layer = "bytes" -> [m EXCEPT !.data.mac = NoMac]

(*************************** the receiver ********************************)
\* a receiver of version ver unpacking message m as a message of kind
Accepts(m, kind, ver) ==
  /\ m.proto = Proto("transport", kind, ver)
  /\ m.data # Unparsable
  /\ m.data.proto = Proto("secure", kind, ver)
  /\ m.data.body.proto = Proto("inner", kind, ver)
  /\ IF kind = "request" THEN m.data.cred = "caller" /\ m.data.mac = Sig("caller", m.data.body)
                         ELSE m.data.mac = Hash(m.data.body)

(***************************** the table *********************************)
Bodies == {"text", "empty", "json", "unicode", "binary", "large"}
Filters == {"none", "full", "agents", "compound"}
TTLs == {1, 60, 86400}
\* replies do not carry a filter or a ttl; version 1 bodies are strings and are used with text only
RoundTrips == {r \in [ver : Vers, kind : Kinds, as : Kinds, fed : BOOLEAN, body : Bodies, filter : Filters, ttl : TTLs, signed : BOOLEAN, t : {None}] :
                 /\ r.ver = "v1" => r.body # "binary" /\ ~r.signed
                 /\ r.kind = "request" => r.body # "empty" /\ (r.ver = "v1" => r.ttl # 1)
                 /\ r.kind = "reply" => r.filter = "none" /\ r.ttl = 60
                 /\ r.kind = "request" => ~r.signed
                 /\ r.as # r.kind => r.body = "text" /\ r.ttl = 60 /\ r.filter = "none"}
Tampered == {[ver |-> v, kind |-> k, as |-> k, fed |-> f, body |-> "text", filter |-> IF k = "request" THEN "full" ELSE "none", ttl |-> 60, signed |-> s, t |-> t] :
                 v \in Vers, k \in Kinds, f \in BOOLEAN, s \in BOOLEAN, t \in Tampers("request") \cup Tampers("reply")}
RowsT == {r \in Tampered : /\ r.t \in Tampers(r.kind)
                           /\ r.t.layer = "header" /\ r.t.field \in {"fed", "fedid", "fedreply", "fedtargets"} => r.fed
                           /\ r.t.field = "env" => r.ver = "v1"
                           /\ r.signed => r.kind = "reply" /\ r.ver = "v2"}
Rows == RoundTrips \cup RowsT

Received(r) == Apply(r.t, Msg(r.kind, r.ver, r.fed), r.kind, r.ver)
Ok(r) == r.as = r.kind /\ Accepts(Received(r), r.kind, r.ver)

VARIABLE row
Init == row \in Rows
Next == UNCHANGED row
Spec == Init /\ [][Next]_row

\* whatever is accepted is what was sent
Authentic == Ok(row) => Received(row).data.body = InnerOf(row.kind, row.ver)
\* what the network did not touch is accepted, and so is a message whose unprotected headers changed
Delivered == (row.t.layer \in {"none", "header"} /\ row.as = row.kind) => Ok(row)
\* nothing is taken for another kind or version
NotConfused == Ok(row) => Received(row).data.body.proto = Proto("inner", row.as, row.ver)
Emit == PrintT("@@" \o ToJson([r |-> row, ok |-> Ok(row), hdr |-> Received(row).hdr]))
=============================================================================
