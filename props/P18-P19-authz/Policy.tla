-------------------------------- MODULE Policy --------------------------------
(* The verdict of an action policy: a reader goes down the file line by line. *)
(* The request: caller me, action act, on a node with facts f=1 and n=5 and   *)
(* classes c1 and c2. Group g holds me, group h another.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Long
VARIABLES r, i, default, verdict
vars == <<r, i, default, verdict>>
------------------------------------------------------------------------------
Callers == {"*", "me", "other", "other me", "me other", "re", "renot", "rebad", "rebad me", "me rebad", "unclosed", "g", "h", "h g", "me2", "prefix", "ME", "unclosed me", "me unclosed"}
CallerYes == {"*", "me", "other me", "me other", "re", "me rebad", "me unclosed", "g", "h g"}
Actions == {"*", "act", "other", "other act", "act other", "other more", "actor", "ac"}
ActionYes == {"*", "act", "other act", "act other"}
Facts == {"*", "f=1", "f=2", "f=1 n=5", "f=1 n=6", "f=2 n=5", "n=6 f=1", "n=5 f=1 n>4", "n=5 f=2 n>4", "n>4", "n>5", "f!=1", "nof=1", "re", "junk", "f=1 junk", "cnot", "cnote", "cparen"}
FactYes == {"*", "f=1", "f=1 n=5", "n=5 f=1 n>4", "n>4", "re"}
FactBad == {"junk", "f=1 junk"}
FactCompound == {"cnot", "cnote", "cparen"}
Classes == {"*", "c1", "c9", "c1 c2", "c1 c9", "c9 c1", "c9 c2 c1", "c2 c1", "re", "renot", "missing", "fact", "cand"}
ClassYes == {"*", "c1", "c1 c2", "c2 c1", "re"}
ClassBad == {"missing", "fact"}
ClassCompound == {"cand"}
Line(k, v, c, a, f, cl) == [k |-> k, v |-> v, c |-> c, a |-> a, f |-> f, cl |-> cl]
Rule(v, c, a, f, cl) == Line("rule", v, c, a, f, cl)
Plain(k) == Line(k, "", "", "", "", "")
(* files: two dimensions of one rule vary at a time; then sequences of typical lines *)
Rules == {Rule(v, c, a, "*", "*") : v \in {"allow", "deny"}, c \in Callers, a \in Actions}
         \cup {Rule(v, c, "act", f, "*") : v \in {"allow", "deny"}, c \in {"me", "other", "g"}, f \in Facts}
         \cup {Rule(v, "me", a, f, cl) : v \in {"allow", "deny"}, a \in {"act", "other"}, f \in Facts, cl \in Classes}
Yes(v) == Rule(v, "me", "act", "f=1", "c1")
No(v) == Rule(v, "other", "*", "*", "*")
Typical == {Plain("comment"), Plain("blank"), Plain("defallow"), Plain("defdeny"), Plain("defjunk"), Plain("spaces"), Plain("words"), Yes("allow"), Yes("deny"), No("allow"), No("deny"),
            Rule("allow", "me", "act", "junk", "*"), Rule("allow", "me", "*", "cnote", "*"), Rule("deny", "*", "*", "cnote", "*"), Rule("allow", "other", "act", "junk", "*"), Rule("deny", "me", "act", "*", "fact")}
Some == {Plain("defallow"), Plain("defdeny"), Yes("allow"), Yes("deny"), No("allow"), Rule("deny", "*", "*", "cnote", "*"), Rule("deny", "me", "act", "*", "missing")}
Env == [facts : {"ok"}, classes : {"ok"}]
Files == {<<x>> : x \in Rules} \cup {<<d, x>> : d \in {Plain("defallow")}, x \in Rules} \cup {<<>>}
         \cup {<<x, y>> : x \in Typical, y \in Typical} \cup {<<x, y, z>> : x \in Some, y \in Typical, z \in Some}
         \cup (IF Long THEN {<<w, x, y, z>> : w \in Some, x \in Typical, y \in Some, z \in Some} ELSE {})
(* which files there are: own the agent's own, def the default one *)
Rows == [file : Files, own : {TRUE}, def : {"none"}, usedef : {"n"}, uncon : {"n", "y"}, facts : {"ok"}, classes : {"ok"}]
        \cup [file : {<<>>, <<Yes("allow")>>, <<Yes("deny")>>, <<Plain("defallow")>>}, own : BOOLEAN, def : {"none", "allow", "deny", "othername"}, usedef : {"", "n", "y", "junk", "named"}, uncon : {"", "n", "y", "1", "junk"}, facts : {"ok"}, classes : {"ok"}]
        \cup [file : {<<Plain("defallow"), Rule(v, "me", "act", f, cl)>> : v \in {"allow", "deny"}, f \in {"*", "f=1", "junk"}, cl \in {"*", "c1"}}, own : {TRUE}, def : {"none"}, usedef : {"n"}, uncon : {"n"}, facts : {"ok", "missing", "broken"}, classes : {"ok", "missing", "unset"}]
------------------------------------------------------------------------------
Uncon == r.uncon \in {"y", "1"}
(* the file that decides *)
File == IF r.own THEN r.file
        ELSE IF (r.usedef = "y" /\ r.def \in {"allow", "deny"}) THEN <<Rule(r.def, "*", "*", "*", "*")>>
        ELSE IF (r.usedef = "named" /\ r.def = "othername") THEN <<Rule("allow", "*", "*", "*", "*")>>
        ELSE <<>>
NoFile == ~r.own /\ ~(r.usedef = "y" /\ r.def \in {"allow", "deny"}) /\ ~(r.usedef = "named" /\ r.def = "othername")
FactHolds(x) == x.f = "*" \/ (x.f \in FactYes /\ r.facts = "ok")
ClassHolds(x) == x.cl = "*" \/ (x.cl \in ClassYes /\ r.classes = "ok")
Error(x) == x.f \in FactBad \/ x.cl \in ClassBad \/ (x.cl # "*" /\ r.classes = "unset")
Init == r \in Rows /\ i = 1 /\ default = "none" /\ verdict = "none"
Done == i > Len(File)
Step ==
  /\ verdict = "none" /\ ~Done
  /\ LET x == File[i] IN
     /\ i' = i + 1
     /\ default' = IF x.k = "defallow" THEN "allow" ELSE IF x.k \in {"defdeny", "defjunk"} THEN "deny" ELSE default
     /\ verdict' = IF x.k # "rule" \/ x.f \in FactCompound \/ x.cl \in ClassCompound \/ x.c \notin CallerYes \/ x.a \notin ActionYes THEN "none"
                   ELSE IF Error(x) THEN "deny"
                   ELSE IF FactHolds(x) /\ ClassHolds(x) THEN x.v ELSE "none"
  /\ UNCHANGED r
End ==
  /\ verdict = "none" /\ Done
  /\ verdict' = IF default # "none" THEN default ELSE IF Uncon THEN "allow" ELSE "deny"
  /\ UNCHANGED <<r, i, default>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
Decides == <>(verdict # "none")
(* nothing but a rule that says so, a default that says so, or the setting, ever grants *)
Granted == verdict = "allow" =>
   \/ \E j \in 1..(i - 1) : File[j].k = "rule" /\ File[j].v = "allow" /\ File[j].f \in FactYes /\ File[j].cl \in ClassYes /\ File[j].c \in CallerYes /\ File[j].a \in ActionYes
   \/ default = "allow" \/ (default = "none" /\ Uncon)
FirstWins == verdict = "allow" => \A j \in 1..(i - 2) : ~(j < Len(File) /\ File[j] = Yes("deny") /\ r.facts = "ok" /\ r.classes = "ok")
Emit == verdict # "none" => PrintT("@@" \o ToJson([r |-> r, ok |-> verdict = "allow", nofile |-> NoFile]))
=============================================================================
