------------------------------- MODULE Show -------------------------------
(* What a user is shown of the replies to a request: the replies themselves, their outputs, names, and the summaries of outputs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxReplies, Vs
VARIABLES rs, agg, def, phase
vars == <<rs, agg, def, phase>>
Status == {0, 1, 4}
Aggs == {"summary", "mapped", "average", "chart", "none"}
(* "nodata": the reply has no data; "array": its data is not an object; "gone": there are outputs, v is not one of them *)
Reply == [st : Status, v : Vs, w : BOOLEAN]
HasData(r) == r.v \notin {"nodata", "array"}
HasV(r) == HasData(r) /\ r.v # "gone"
Text == [a |-> "a", b |-> "b", yes |-> "true", one |-> "1", half |-> "2.5", three |-> "3", neg |-> "-4", nan |-> "NaN", inf |-> "Inf", null |-> "null", list |-> "[1]"]
Mapped == [Text EXCEPT !.a = "Alpha", !.yes = "Yes", !.one = "One"]
Tenths == [one |-> 10, half |-> 25, three |-> 30, neg |-> -40]
Numbers == DOMAIN Tenths

Init == rs = <<>> /\ agg \in Aggs /\ def \in BOOLEAN /\ phase = "get"
Get(r) == phase = "get" /\ Len(rs) < MaxReplies /\ rs' = Append(rs, r) /\ UNCHANGED <<agg, def, phase>>
Show == phase = "get" /\ phase' = "show" /\ UNCHANGED <<rs, agg, def>>
Next == Show \/ \E r \in Reply : Get(r)
Spec == Init /\ [][Next]_vars

(* ---- which replies are shown ---- *)
Modes == {"", "ok", "failed", "always"}
Over == {"ddl", "ok", "failed", "all", "none"}
Shown(m, o, r) ==
  CASE o = "all" -> TRUE
    [] o = "none" -> FALSE
    [] o = "ok" -> r.st = 0
    [] o = "failed" -> r.st # 0
    [] o = "ddl" -> CASE m = "always" -> TRUE [] m = "ok" -> r.st = 0 [] OTHER -> r.st # 0

(* ---- outputs of a reply: those it has, and those with a default ---- *)
W(r) == IF ~HasData(r) THEN "nothing" ELSE IF r.w THEN "zed" ELSE IF def THEN "unknown" ELSE "nothing"

(* ---- summaries ---- *)
Idx(P(_)) == {i \in 1..Len(rs) : P(rs[i])}
Label(r) == IF agg = "mapped" THEN Mapped[r.v] ELSE Text[r.v]
VSum ==
  IF agg \notin {"summary", "mapped"} THEN {}
  ELSE LET is == Idx(HasV) IN {[k |-> l, n |-> Cardinality({i \in is : Label(rs[i]) = l})] : l \in {Label(rs[i]) : i \in is}}
WSum ==
  LET is == Idx(LAMBDA r : W(r) # "nothing") IN {[k |-> l, n |-> Cardinality({i \in is : W(rs[i]) = l})] : l \in {W(rs[i]) : i \in is}}
Usable == Idx(LAMBDA r : HasV(r) /\ r.v \in Numbers)
Sum == FoldLeft(LAMBDA x, r : IF HasV(r) /\ r.v \in Numbers THEN x + Tenths[r.v] ELSE x, 0, rs)
Names == SelectSeq([i \in 1..Len(rs) |-> IF rs[i].st = 0 THEN i ELSE 0], LAMBDA i : i # 0)

(* ---- checked ---- *)
ShownOnce ==
  \A i \in 1..Len(rs), m \in Modes :
    /\ Shown(m, "all", rs[i]) /\ ~Shown(m, "none", rs[i])
    /\ Shown(m, "ok", rs[i]) # Shown(m, "failed", rs[i])
RECURSIVE Total(_)
Total(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN x.n + Total(s \ {x})
Conserved == agg \in {"summary", "mapped"} => Total(VSum) = Cardinality(Idx(HasV))
DefaultsCount == def => Total(WSum) = Cardinality(Idx(HasData))
NamesOk == \A i \in 1..Len(rs) : (rs[i].st = 0) = (\E j \in 1..Len(Names) : Names[j] = i)
Emit ==
  phase = "show" =>
    PrintT("@@" \o ToJson([replies |-> [i \in 1..Len(rs) |-> [st |-> rs[i].st, v |-> rs[i].v, w |-> W(rs[i]), hasw |-> rs[i].w]],
       agg |-> agg, def |-> def, vsum |-> VSum, wsum |-> WSum, usable |-> Cardinality(Usable), sum |-> Sum, names |-> Names,
       shown |-> [m \in Modes |-> [o \in Over |-> [i \in 1..Len(rs) |-> Shown(m, o, rs[i])]]]]))
=============================================================================
