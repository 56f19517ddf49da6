-------------------------------- MODULE Ops --------------------------------
(* Comparing one fact with one literal. Numbers are held in tenths; texts by their rank. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Long
VARIABLES r
(* texts in order, ignoring case; equal ones share a rank *)
Texts == << {"1"}, {"10"}, {"2"}, {"a"}, {"AB", "ab"}, {"abc", "aBc"}, {"b", "B"}, {"z z"} >>
Rank(s) == CHOOSE i \in DOMAIN Texts : s \in Texts[i]
AllTexts == UNION {Texts[i] : i \in DOMAIN Texts}
Ints == IF Long THEN {-120, -10, 0, 10, 20, 30, 100, 110, 120, 20000, 20260} ELSE {-10, 0, 10, 20, 100, 110}   \* tenths
Floats == IF Long THEN {-15, -5, 1, 5, 15, 19, 20, 25, 105} ELSE {-15, 5, 15, 25}
Other == {"null", "object", "list", "absent"}
Bools == {"true", "false"}
BoolWords == ("true" :> TRUE @@ "false" :> FALSE @@ "1" :> TRUE @@ "0" :> FALSE @@ "TRUE" :> TRUE @@ "False" :> FALSE @@ "t" :> TRUE @@ "f" :> FALSE @@ "tRuE" :> TRUE)
Patterns == {"^A", "b", "/^a/", "c$", "^ab?$", "^1", ".", "(", "/z z/"}
PatternHits == ("^A" :> {"a", "AB", "ab", "abc", "aBc"} @@ "b" :> {"AB", "ab", "abc", "aBc", "b", "B"} @@ "/^a/" :> {"a", "AB", "ab", "abc", "aBc"} @@ "c$" :> {"abc", "aBc"} @@ "^ab?$" :> {"a", "AB", "ab"}
               @@ "^1" :> {"1", "10"} @@ "." :> AllTexts @@ "(" :> {} @@ "/z z/" :> {"z z"})
Ops6 == {"==", "!=", "<", "<=", ">", ">="}
F(t, n, s) == [t |-> t, n |-> n, s |-> s]
FactSet == {F("int", n, "") : n \in Ints} \cup {F("float", n, "") : n \in Floats} \cup {F("text", 0, s) : s \in AllTexts} \cup {F("bool", 0, b) : b \in Bools} \cup {F(o, 0, "") : o \in Other}
LitSet == {F("int", n, "") : n \in Ints} \cup {F("float", n, "") : n \in Floats \cup {10, 0, 100}} \cup {F("text", 0, s) : s \in AllTexts} \cup {F("bool", 0, b) : b \in DOMAIN BoolWords}
Rows == [fact : FactSet, op : Ops6, lit : LitSet] \cup [fact : FactSet, op : {"=~"}, lit : {F("pattern", 0, p) : p \in Patterns}] \cup [fact : FactSet, op : {"=", "=>", "", "<>", "~", "=<"}, lit : {F("int", 10, "")}]
Init == r \in Rows
Spec == Init /\ [][UNCHANGED r]_r
------------------------------------------------------------------------------
Cmp(a, op, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
YN(b) == IF b THEN "yes" ELSE "no"
IsTextOfNumber(l) == l.t = "text" /\ l.s \in {"1", "10", "2"}
NumberOf(l) == IF l.t = "text" THEN (CASE l.s = "1" -> 10 [] l.s = "10" -> 100 [] OTHER -> 20) ELSE l.n
Verdict ==
  LET f == r.fact l == r.lit IN
  IF r.op \notin (Ops6 \cup {"=~"}) THEN "no"
  ELSE IF f.t \in Other THEN "no"
  ELSE IF r.op = "=~" THEN (IF f.t = "text" THEN YN(f.s \in PatternHits[l.s]) ELSE "any")
  ELSE CASE f.t = "text" -> IF l.t = "text" THEN YN(Cmp(Rank(f.s), r.op, Rank(l.s))) ELSE "any"
         [] f.t = "int" /\ (l.t \in {"int", "float"} \/ IsTextOfNumber(l)) -> YN(Cmp(f.n, r.op, NumberOf(l)))
         [] f.t = "float" /\ (l.t \in {"int", "float"} \/ IsTextOfNumber(l)) -> YN(Cmp(f.n, r.op, NumberOf(l)))
         [] f.t = "float" -> "any"
         [] f.t = "int" /\ l.t = "bool" -> "any"
         [] f.t = "int" -> IF r.op = "==" THEN "no" ELSE IF r.op = "!=" THEN "yes" ELSE "no"
         [] f.t = "bool" -> IF r.op \notin {"==", "!="} THEN "no"
                            ELSE IF l.t = "bool" THEN YN(Cmp(f.s = "true", r.op, BoolWords[l.s])) ELSE "any"
(* the oracle is consistent *)
At(op) == LET q == [r EXCEPT !.op = op] IN
  CASE q.fact.t = "text" /\ q.lit.t = "text" -> Cmp(Rank(q.fact.s), op, Rank(q.lit.s))
    [] OTHER -> Cmp(q.fact.n, op, NumberOf(q.lit))
Comparable == (r.fact.t = "text" /\ r.lit.t = "text") \/ (r.fact.t = "int" /\ r.lit.t \in {"int", "float"}) \/ (r.fact.t = "float" /\ r.lit.t \in {"int", "float"})
Consistent == Comparable => /\ At("!=") = ~At("==")
                            /\ At("<=") = (At("<") \/ At("=="))
                            /\ At(">=") = (At(">") \/ At("=="))
                            /\ Cardinality({o \in {"<", "==", ">"} : At(o)}) = 1
Emit == PrintT("@@" \o ToJson([r |-> r, v |-> Verdict]))
=============================================================================
