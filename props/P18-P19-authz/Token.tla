-------------------------------- MODULE Token --------------------------------
(* Authorisation by what the caller's token holds, by Rego policy files, and *)
(* by unknown means. The request is for agent ag, action ac with data x=1,   *)
(* filtered on class web, identity n1 and fact country=mt, unless said.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES r
(* list entries *)
E == {"*", "ag.ac", "ag.*", "ag.other", "other.ac", "other.*", "*.ac", "ag", "ag.ac.x", "", "AG.ac", "ag.", "ag.acx", "a.ac", "ag.a*", "a*.ac"}
Grants(e, agent, action) == e = "*" \/ (agent = "ag" /\ (e = "ag.*" \/ (e = "ag.ac" /\ action = "ac") \/ (e = "ag.other" /\ action = "other"))) \/ (agent = "other" /\ (e = "other.*" \/ (e = "other.ac" /\ action = "ac")))
Malformed(e) == e \in {"ag", "ag.ac.x", ""}
(* policies: what they ask for *)
Rego == {"yes", "no", "agent", "action", "data", "claims", "filter", "class", "noclass", "identity", "noidentity", "fact", "nofact", "factop", "collective", "two", "either", "nodefault", "nodefaultno", "text", "number", "syntax", "package", "undefinedfn"}
Filters == {"full", "agentonly", "classonly", "idonly", "factonly", "compound"}
Base == [prov |-> "aaasvc", authz |-> TRUE, agent |-> "ag", action |-> "ac", list |-> <<>>, rego |-> "none", tok |-> "ok", filter |-> "full", data |-> "x1", files |-> "none", req |-> "ok"]
With(f, v) == [Base EXCEPT ![f] = v]
Lists == {<<>>} \cup {<<e>> : e \in E} \cup {<<e, f>> : e \in E, f \in E}
Agents == {"ag", "other", "discovery", "discovery2"}
Toks == {"ok", "none", "garbage", "server", "empty"}
Rows ==
   {[With("list", l) EXCEPT !.agent = a, !.action = c] : l \in Lists, a \in Agents, c \in {"ac", "other"}}
   \cup {[With("list", l) EXCEPT !.agent = a, !.tok = t, !.rego = g] : l \in {<<>>, <<"*">>, <<"ag.ac">>}, a \in Agents, t \in Toks, g \in {"none", "yes", "no"}}
   \cup {[With("rego", g) EXCEPT !.agent = a, !.action = c, !.filter = f, !.data = d] : g \in Rego, a \in {"ag", "other"}, c \in {"ac", "other"}, f \in Filters, d \in {"x1", "x2", "list", "null"}}
   \cup {[With("prov", "rego_policy") EXCEPT !.agent = a, !.action = c, !.files = fs, !.rego = g, !.data = d] : a \in {"ag", "other"}, c \in {"ac"}, fs \in {"none", "own", "default", "both", "ownno"}, g \in Rego \ {"claims", "filter", "class", "noclass", "identity", "noidentity", "fact", "nofact", "factop"}, d \in {"x1", "x2"}}
   \cup {[With("prov", p) EXCEPT !.list = l, !.authz = z, !.req = q] : p \in {"aaasvc", "AAASVC", "aaasvc_policy", "action_policy", "rego_policy", "", "other", "aaasvc "}, l \in {<<"*">>, <<"other.*">>}, z \in BOOLEAN, q \in {"ok", "nil", "noagent", "nosi", "nocfg"}}
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
List == LET bad == {i \in 1..Len(r.list) : Malformed(r.list[i])}
            good == {i \in 1..Len(r.list) : Grants(r.list[i], r.agent, r.action)}
        IN IF good = {} THEN "no" ELSE IF bad = {} THEN "yes" ELSE "any"   \* what a listed entry beside a malformed one gives is not said
Has(f) == r.filter = "full" \/ r.filter = f
Bad(g) == g \in {"text", "number", "syntax", "package", "undefinedfn", "nodefaultno"}
Asks(g) == CASE g = "yes" -> TRUE [] g = "no" -> FALSE
             [] g = "agent" -> r.agent = "ag" [] g = "action" -> r.action = "ac"
             [] g = "data" -> r.data = "x1"
             [] g = "claims" -> TRUE
             [] g = "filter" -> r.filter # "agentonly"
             [] g = "class" -> Has("classonly") [] g = "identity" -> Has("idonly") [] g = "fact" -> Has("factonly")
             [] g \in {"noclass", "noidentity", "nofact", "factop"} -> FALSE
             [] g = "collective" -> TRUE
             [] g = "two" -> r.agent = "ag" /\ r.data = "x1"
             [] g = "either" -> r.agent = "ag" \/ r.data = "x1"
             [] g = "nodefault" -> r.agent = "ag"
             [] OTHER -> FALSE
YN(b) == IF b THEN "yes" ELSE "no"
AAA == IF r.tok \in {"none", "garbage", "empty"} THEN "no"
       ELSE IF r.tok = "server" THEN "no"
       ELSE IF r.agent = "discovery" THEN "yes"
       ELSE IF r.list = <<>> /\ r.rego = "none" THEN "no"
       ELSE IF r.list # <<>> /\ r.rego # "none" THEN "no"
       ELSE IF r.list # <<>> THEN List
       ELSE YN(~Bad(r.rego) /\ r.data \notin {"list"} /\ Asks(r.rego))
FileRego == CASE r.files = "none" -> "no"
              [] r.files = "own" -> IF r.agent = "ag" THEN YN(~Bad(r.rego) /\ Asks(r.rego)) ELSE "no"
              [] r.files = "default" -> YN(~Bad(r.rego) /\ Asks(r.rego))
              [] r.files = "both" -> IF r.agent = "ag" THEN "no" ELSE YN(~Bad(r.rego) /\ Asks(r.rego))  \* the own one denies
              [] r.files = "ownno" -> IF r.agent = "ag" THEN YN(~Bad(r.rego) /\ Asks(r.rego)) ELSE "no"    \* the default one denies
Verdict == IF r.req = "nocfg" THEN "no"
           ELSE IF ~r.authz THEN "yes"
           ELSE IF r.req # "ok" THEN "no"
           ELSE CASE r.prov \in {"aaasvc", "AAASVC", "aaasvc_policy"} -> AAA
                  [] r.prov = "rego_policy" -> FileRego
                  [] OTHER -> "no"
------------------------------------------------------------------------------
NoPolicyNoAccess == r.prov = "aaasvc" /\ r.authz /\ r.req = "ok" /\ r.list = <<>> /\ r.rego = "none" /\ r.agent # "discovery" => Verdict = "no"
NoTokenNoAccess == r.prov = "aaasvc" /\ r.authz /\ r.tok # "ok" /\ r.req = "ok" => Verdict = "no"
BothDeny == r.prov = "aaasvc" /\ r.list # <<>> /\ r.rego # "none" /\ r.agent # "discovery" => Verdict = "no"
BrokenDeny == r.rego \in {"text", "number", "syntax", "package", "undefinedfn"} /\ r.list = <<>> /\ r.authz /\ r.agent # "discovery" /\ r.files \in {"none", "own", "default"} => Verdict = "no"
Emit == PrintT("@@" \o ToJson([r |-> r, v |-> Verdict]))
=============================================================================
