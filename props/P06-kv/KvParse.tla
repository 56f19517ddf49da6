------------------------------ MODULE KvParse -------------------------------
(* What a raw value is in the machine data and under which name; values are given as JSON *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLE r
H(d, o) == "{\"hierarchy\":{\"order\":[\"role:{{ lookup('facts.role') }}\",\"os:{{ lookup('facts.os') }}\"]},\"data\":" \o d \o ",\"overrides\":" \o o \o "}"
Plain == {<<"hello", "\"hello\"">>, <<"", "\"\"">>, <<" spaced ", "\" spaced \"">>, <<"line\n", "\"line\\n\"">>, <<"42", "\"42\"">>, <<"true", "\"true\"">>, <<"null", "\"null\"">>, <<"\"x\"", "\"\\\"x\\\"\"">>,
          <<"{\"a\":1}", "{\"a\":1}">>, <<"\n\t {\"a\":{\"b\":[1,\"x\",null]}} \n", "{\"a\":{\"b\":[1,\"x\",null]}}">>, <<"{}", "{}">>, <<"[]", "[]">>, <<" [1,\"two\",{\"k\":true}]\n", "[1,\"two\",{\"k\":true}]">>,
          <<"{unclosed", "\"{unclosed\"">>, <<"[1,2", "\"[1,2\"">>, <<"x{}", "\"x{}\"">>, <<"{}x", "\"{}x\"">>}
Query == {<<"{\"a\":{\"b\":5}}", "a.b", "5">>, <<"{\"a\":{\"b\":\"x\"}}", "a.b", "\"x\"">>, <<"{\"a\":{\"b\":false}}", "a.b", "false">>, <<"{\"a\":[1,2,3]}", "a.1", "2">>, <<"{\"a\":{\"b\":{\"c\":1}}}", "a.b", "{\"c\":1}">>, <<"plain", "a.b", "\"plain\"">>, <<"[1,2]", "0", "[1,2]">>}
Hiera == {<<H("{\"v\":1}", "{}"), "{\"v\":1}">>, <<H("{\"v\":1}", "{\"role:web\":{\"v\":2}}"), "{\"v\":2}">>, <<H("{\"v\":1,\"w\":3}", "{\"role:db\":{\"v\":2}}"), "{\"v\":1,\"w\":3}">>, <<H("{\"v\":1}", "{\"os:linux\":{\"v\":4}}"), "{\"v\":4}">>, <<H("{\"v\":1}", "{\"os:linux\":{\"v\":4},\"role:web\":{\"v\":2}}"), "{\"v\":2}">>}
Names == {[key |-> "k", store |-> "", prefix |-> p, name |-> IF p THEN "BK_k" ELSE "k"] : p \in BOOLEAN}
         \cup {[key |-> "k", store |-> "mine", prefix |-> p, name |-> IF p THEN "BK_mine" ELSE "mine"] : p \in BOOLEAN}
         \cup {[key |-> "{{ lookup \"facts.role\" \"none\" }}.k", store |-> "", prefix |-> p, name |-> IF p THEN "BK_web.k" ELSE "web.k"] : p \in BOOLEAN}
         \cup {[key |-> "k", store |-> "{{ lookup \"facts.os\" \"none\" }}", prefix |-> TRUE, name |-> "BK_linux"], [key |-> "{{ lookup \"facts.none\" \"dflt\" }}", store |-> "", prefix |-> FALSE, name |-> "dflt"]}
N0 == [key |-> "k", store |-> "", prefix |-> TRUE, name |-> "BK_k"]
Row(raw, q, h, want, n, how, iv) == [raw |-> raw, query |-> q, hiera |-> h, want |-> want, n |-> n, how |-> how, iv |-> iv]
Rows == {Row(p[1], "", FALSE, p[2], N0, how, "1h") : p \in Plain, how \in {"poll", "repub"}}
        \cup {Row(p[1], p[2], FALSE, p[3], N0, how, "1h") : p \in Query, how \in {"poll", "repub"}}
        \cup {Row(p[1], "", TRUE, p[2], N0, how, "1h") : p \in Hiera, how \in {"poll", "repub"}}
        \cup {Row("{\"a\":1}", "", FALSE, "{\"a\":1}", n, how, iv) : n \in Names, how \in {"poll", "repub"}, iv \in {"1h", ""}}
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
(* how a value arrived makes no difference *)
SameEitherWay == \E x \in Rows : x.how /= r.how /\ x = [r EXCEPT !.how = x.how]
Emit == PrintT("@@" \o ToJson(r))
=============================================================================
