-------------------------------- MODULE Ddl --------------------------------
(* Which requests an action description admits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Long
VARIABLES r
(* JSON values by symbol: kind and, for texts, what they are *)
V == ("i0" :> "int" @@ "i1" :> "int" @@ "ineg" :> "int" @@ "ibig" :> "int" @@ "iexp" :> "int" @@ "f15" :> "float" @@ "f10" :> "int" @@ "fneg" :> "float" @@ "fsmall" :> "float"
      @@ "true" :> "bool" @@ "false" :> "bool" @@ "null" :> "null" @@ "obj0" :> "hash" @@ "obj1" :> "hash" @@ "arr0" :> "array" @@ "arr1" :> "array"
      @@ "t0" :> "text" @@ "tabc" :> "text" @@ "tlong" :> "text" @@ "tmax" :> "text" @@ "tmax1" :> "text" @@ "tsemi" :> "text" @@ "tamp" :> "text" @@ "tampamp" :> "text" @@ "tdollar" :> "text" @@ "ttick" :> "text" @@ "tpipe" :> "text" @@ "tgt" :> "text" @@ "tlt" :> "text"
      @@ "tip4" :> "text" @@ "tip6" :> "text" @@ "tipbad" :> "text" @@ "tone" :> "text" @@ "ttwo" :> "text" @@ "tONE" :> "text" @@ "tnum" :> "text" @@ "ttrue" :> "text" @@ "tabcnl" :> "text" @@ "tabcnlend" :> "text" @@ "tspabc" :> "text" @@ "tip4nl" :> "text" @@ "tonesp" :> "text")
Vals == DOMAIN V
Length == [v \in Vals |-> CASE v = "t0" -> 0 [] v = "tabc" -> 3 [] v = "tlong" -> 40 [] v = "tmax" -> 20 [] v = "tmax1" -> 21 [] v = "tip6" -> 3 [] v = "tip4" -> 8 [] v \in {"tone", "ttwo", "tONE"} -> 3 [] OTHER -> 5]
Unsafe == {"tsemi", "tampamp", "tdollar", "ttick", "tpipe", "tgt", "tlt"}
Types == {"integer", "number", "float", "string", "boolean", "list", "Hash", "Array", "hash", "array", "", "junk"}
Rules == {"", "shellsafe", "ipv4address", "ipv6address", "ipaddress", "^abc", "^[a-z]+$", "named", "(bad"}
Enums == {<<>>, <<"one">>, <<"one", "two">>}
TypeOK(t, v) == LET k == V[v] IN
   CASE t = "integer" -> k = "int" [] t \in {"number", "float"} -> k \in {"int", "float"} [] t = "string" -> k = "text" [] t = "boolean" -> k = "bool"
     [] t = "list" -> k = "text" [] t \in {"Hash", "hash"} -> k = "hash" [] t \in {"Array", "array"} -> k = "array" [] OTHER -> FALSE
RuleOK(rule, v) ==
   CASE rule = "shellsafe" -> v \notin Unsafe
     [] rule = "ipv4address" -> v = "tip4" [] rule = "ipv6address" -> v = "tip6" [] rule = "ipaddress" -> v \in {"tip4", "tip6"}
     [] rule = "^abc" -> v \in {"tabc", "tabcnl", "tabcnlend", "tlong", "tmax", "tmax1"} [] rule = "^[a-z]+$" -> v \in {"tabc", "tone", "ttwo", "ttrue", "tlong", "tmax", "tmax1"}
     [] rule = "(bad" -> FALSE
     [] OTHER -> TRUE
Listed(e, v) == \E i \in DOMAIN e : v = "t" \o e[i]
(* one input *)
InputOK(i, v) == /\ TypeOK(i.type, v)
                 /\ i.type = "string" => (i.max = 0 \/ Length[v] <= i.max) /\ RuleOK(i.rule, v)
                 /\ i.type = "list" => Listed(i.enum, v)
I(t, m, u, e, o, d) == [type |-> t, max |-> m, rule |-> u, enum |-> e, optional |-> o, default |-> d]
Singles == {I(t, 0, "", <<"one">>, FALSE, "none") : t \in Types}
           \cup {I("string", m, u, <<>>, FALSE, "none") : m \in {0, 3, 20}, u \in Rules}
           \cup {I("list", m, u, e, FALSE, "none") : m \in {0, 2}, u \in {"", "^abc"}, e \in Enums}
(* requests over up to three inputs a, b, c *)
Multi == {[a |-> I("string", 20, "shellsafe", <<>>, oa, da), b |-> I("integer", 0, "", <<>>, ob, db), c |-> I("list", 0, "", <<"one", "two">>, oc, "none")] :
            oa \in BOOLEAN, ob \in BOOLEAN, oc \in BOOLEAN, da \in {"none", "tabc"}, db \in {"none", "i1", "i0"}}
A == {"absent", "tabc", "tsemi", "i1"}
B == {"absent", "i1", "f15"} \cup (IF Long THEN {"null", "tnum"} ELSE {})
C == {"absent", "ttwo", "tabc"}
X == {"none", "extra", "process_results"}
Rows == [k : {"one"}, item : Singles, v : Vals] \cup [k : {"multi"}, item : Multi, v : [a : A, b : B, c : C, x : X]]
        \cup [k : {"zero"}, item : {<<>>}, v : [a : {"absent", "tabc"}, b : {"absent"}, c : {"absent"}, x : X]]
        \cup [k : {"convert"}, item : Singles, v : {"s:1", "s:-7", "s:0x10", "s:1.5", "s:1.1", "s:1.0", "s:1e2", "s: 1", "s:", "s:abc", "s:true", "s:T", "s:yes", "s:0", "s:FALSE", "s:{}", "s:{\"a\":1}", "s:[]", "s:[1,\"x\"]", "s:{", "s:one", "s:two", "s:a;b", "s:10.1.1.1", "s:99999999999999999999"}]
        \cup [k : {"body"}, item : {<<>>}, v : {"list", "text", "number", "null", "broken", "empty"}]
        \cup [k : {"output"}, item : {"none", "zero", "false", "text", "blank", "list"}, v : {"absent", "null", "zero", "false", "text", "blank"}]
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
Names == {"a", "b", "c"}
Given(v) == {n \in Names : v[n] # "absent"}
MultiOK == /\ \A n \in Names : r.item[n].optional \/ n \in Given(r.v)
           /\ \A n \in Given(r.v) : InputOK(r.item[n], r.v[n])
           /\ r.v.x # "extra"
(* defaults are only for inputs that were not given *)
Defaulted(n) == IF n \in Given(r.v) THEN r.v[n] ELSE IF r.item[n].default # "none" THEN r.item[n].default ELSE "absent"
AfterDefaults == [n \in Names |-> Defaulted(n)]
(* typed on the command line, required inputs with a default need not be given *)
TypedOK == /\ \A n \in Names : r.item[n].optional \/ n \in Given(r.v) \/ r.item[n].default # "none"
           /\ \A n \in Given(r.v) : InputOK(r.item[n], r.v[n])
(* what becomes of a text typed on the command line: "no" or the symbol of the value *)
Conv ==
  LET s == r.v t == r.item.type IN
  CASE t = "integer" -> (CASE s = "s:1" -> "1" [] s = "s:-7" -> "-7" [] s = "s:0" -> "0" [] OTHER -> "no")
    [] t \in {"number", "float"} -> (CASE s \in {"s:1", "s:1.0"} -> "1" [] s = "s:-7" -> "-7" [] s = "s:0" -> "0" [] s = "s:1.5" -> "1.5" [] s = "s:1.1" -> "1.1" [] s = "s:1e2" -> "100" [] s = "s:99999999999999999999" -> "any" [] OTHER -> "no")
    [] t = "boolean" -> (CASE s \in {"s:1", "s:true", "s:T"} -> "true" [] s \in {"s:0", "s:FALSE"} -> "false" [] OTHER -> "no")
    [] t \in {"Hash", "hash"} -> (CASE s = "s:{}" -> "{}" [] s = "s:{\"a\":1}" -> "{\"a\":1}" [] OTHER -> "no")
    [] t \in {"Array", "array"} -> (CASE s = "s:[]" -> "[]" [] s = "s:[1,\"x\"]" -> "[1,\"x\"]" [] OTHER -> "no")
    [] t = "list" -> (IF (s = "s:one" /\ \E i \in DOMAIN r.item.enum : r.item.enum[i] = "one") \/ (s = "s:two" /\ \E i \in DOMAIN r.item.enum : r.item.enum[i] = "two") THEN "same" ELSE "no")
    [] t = "string" ->
         LET len == CASE s \in {"s:", "s:1", "s:0", "s:T", "s:{"} -> 1 [] s \in {"s:abc", "s:1.5", "s:1.1", "s:1.0", "s:1e2", "s:yes", "s:one", "s:two", "s:a;b"} -> 3 [] s \in {"s:-7", "s: 1", "s:{}", "s:[]"} -> 2 [] OTHER -> 4
             rule == CASE r.item.rule = "shellsafe" -> s # "s:a;b" [] r.item.rule \in {"ipv4address", "ipaddress"} -> s = "s:10.1.1.1" [] r.item.rule = "ipv6address" -> FALSE
                       [] r.item.rule = "^abc" -> s = "s:abc" [] r.item.rule = "^[a-z]+$" -> s \in {"s:abc", "s:true", "s:yes", "s:one", "s:two"} [] r.item.rule = "(bad" -> FALSE [] OTHER -> TRUE
         IN IF (r.item.max = 0 \/ r.item.max = 20 \/ len <= r.item.max) /\ rule THEN "same" ELSE "no"
    [] OTHER -> "no"
Verdict == CASE r.k = "one" -> InputOK(r.item, r.v)
             [] r.k = "multi" -> MultiOK
             [] r.k = "zero" -> r.v.a = "absent" /\ r.v.x # "extra"
             [] r.k = "convert" -> Conv # "no"
             [] r.k = "output" -> TRUE
             [] r.k = "body" -> r.v = "null"
NoUnsafe == r.k = "one" /\ r.item.type = "string" /\ r.item.rule = "shellsafe" /\ r.v \in Unsafe => ~Verdict
DefaultsKeep == r.k = "multi" => \A n \in Given(r.v) : AfterDefaults[n] = r.v[n]
Emit == PrintT("@@" \o ToJson([r |-> r, ok |-> Verdict, typed |-> r.k = "multi" /\ TypedOK, conv |-> IF r.k = "convert" THEN Conv ELSE "", def |-> CASE r.k = "multi" -> AfterDefaults [] r.k = "output" -> [out |-> IF r.v # "absent" THEN r.v ELSE IF r.item # "none" THEN r.item ELSE "absent"] [] OTHER -> [out |-> ""]]))
=============================================================================
