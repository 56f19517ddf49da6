------------------------------- MODULE Filter -------------------------------
(* Three nodes and what each filter entry, as typed on the command line, says of them. *)
(*  n1  agents rpcutil a1   classes c1 role::web   facts f=1 s="Abc" b=true nest.x=2.5 l=["x",3] v="1.2.3" *)
(*  n2  agents a1           classes none           facts f=2 s="zed" b=false                               *)
(*  n3  agents none         classes c1 Role::DB    facts none                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Long
VARIABLES r
Nodes == {"n1", "n2", "n3"}
Identity == ("n1" :> {"n1"} @@ "n2" :> {"n2"} @@ "n" :> {} @@ "n4" :> {} @@ "/n[12]/" :> {"n1", "n2"} @@ "/^n/" :> Nodes @@ "/^n$/" :> {} @@ "/(n/" :> {} @@ "N1" :> {} @@ "n[12]" :> {})
Agent == ("a1" :> {"n1", "n2"} @@ "rpcutil" :> {"n1"} @@ "a" :> {} @@ "/^a/" :> {"n1", "n2"} @@ "/util$/" :> {"n1"} @@ "/(a/" :> {} @@ "other" :> {})
Class == ("c1" :> {"n1", "n3"} @@ "role::web" :> {"n1"} @@ "Role::DB" :> {"n3"} @@ "role" :> {} @@ "/^role::/" :> {"n1", "n3"} @@ "/^c[1-9]$/" :> {"n1", "n3"} @@ "/(c/" :> {} @@ "zz" :> {})
Fact == ("f=1" :> {"n1"} @@ "f!=1" :> {"n2"} @@ "f>=1" :> {"n1", "n2"} @@ "f>1" :> {"n2"} @@ "f<2" :> {"n1"} @@ "f=<2" :> {"n1", "n2"} @@ "s=abc" :> {"n1"} @@ "s=/^Z/" :> {"n2"} @@ "s=~b" :> {"n1"} @@ "b=true" :> {"n1"} @@ "b=false" :> {"n2"}
         @@ "b!=false" :> {"n1"} @@ "nest.x>2.5" :> {} @@ "nest.x>=2.5" :> {"n1"} @@ "none=1" :> {} @@ "none!=1" :> {} @@ "nest=1" :> {} @@ "s=~(" :> {} @@ "l.0=x" :> {"n1"})
Compound == ("with('c1')" :> {"n1", "n3"} @@ "with('f=1')" :> {"n1"} @@ "with('a1')" :> {"n1", "n2"} @@ "not with('a1')" :> {"n3"} @@ "with('c1') and with('a1')" :> {"n1"} @@ "with('f=2') or with('Role::DB')" :> {"n2", "n3"}
             @@ "fact('f') == 2" :> {"n2"} @@ "with('/^role/')" :> {"n1", "n3"} @@ "broken(" :> {} @@ "fact('f')" :> {} @@ "1 == 1" :> Nodes @@ "1 == 2" :> {} @@ "semver('1.2.3', '> 1.0.0')" :> Nodes @@ "with('c1') and include(fact('l'), 3)" :> {"n1"})
------------------------------------------------------------------------------
S(x) == DOMAIN x
Seqs(D, n) == {<<>>} \cup {<<a>> : a \in D} \cup (IF n < 2 THEN {} ELSE {<<a, b>> : a \in D, b \in D}) \cup (IF n < 3 THEN {} ELSE {<<a, b, c>> : a \in D, b \in D, c \in D})
Empty == [identity |-> <<>>, agent |-> <<>>, class |-> <<>>, fact |-> <<>>, compound |-> <<>>]
(* a few of each for the products *)
Kinds == [identity : {<<>>, <<"n1">>, <<"n2", "/(n/">>, <<"/^n/">>, <<"n">>}, agent : {<<>>, <<"a1">>, <<"/^a/", "rpcutil">>, <<"other">>}, class : {<<>>, <<"c1">>, <<"/^role::/", "c1">>, <<"zz">>},
          fact : {<<>>, <<"f=1">>, <<"f>=1", "s=/^Z/">>, <<"none=1">>, <<"f>=1">>}, compound : {<<>>, <<"with('c1')">>, <<"with('a1')", "1 == 1">>, <<"broken(">>, <<"1 == 1">>}]
N == IF Long THEN 3 ELSE 2
Rows == {[Empty EXCEPT !.identity = s] : s \in Seqs(S(Identity), N)}
        \cup {[Empty EXCEPT !.agent = s] : s \in Seqs(S(Agent), 3)}
        \cup {[Empty EXCEPT !.class = s] : s \in Seqs(S(Class), N)}
        \cup {[Empty EXCEPT !.fact = s] : s \in Seqs(S(Fact), N)}
        \cup {[Empty EXCEPT !.compound = s] : s \in Seqs(S(Compound), 3)}
        \cup Kinds
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}
All(T, s) == {n \in Nodes : \A e \in Range(s) : n \in T[e]}
Some(T, s) == IF s = <<>> THEN Nodes ELSE {n \in Nodes : \E e \in Range(s) : n \in T[e]}
Selected == Some(Identity, r.identity) \cap All(Agent, r.agent) \cap All(Class, r.class) \cap All(Fact, r.fact) \cap All(Compound, r.compound)
(* sanity of the oracle *)
EmptySelectsAll == r = Empty => Selected = Nodes
Narrower == \A k \in {"agent", "class", "fact", "compound"} : r[k] # <<>> => Selected \subseteq All([identity |-> Identity, agent |-> Agent, class |-> Class, fact |-> Fact, compound |-> Compound][k], <<r[k][1]>>)
Emit == PrintT("@@" \o ToJson([r |-> r, sel |-> [n \in Nodes |-> n \in Selected]]))
=============================================================================
