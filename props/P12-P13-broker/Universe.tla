------------------------------ MODULE Universe ------------------------------
EXTENDS Subjects, Json
VARIABLES x
Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
Emit == PrintT("@@" \o ToJson([concrete |-> U, wild |-> Wild]))
=============================================================================
