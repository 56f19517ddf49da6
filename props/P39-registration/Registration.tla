---------------------------- MODULE Registration ----------------------------
(* Nodes telling about themselves: sources of data polled in rounds, and what is published. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Part
VARIABLES cfg,   \* [provs, trigger, compress, target]
          file,  \* [kind, k, mt] the file: there or not, which of a few sizes, when modified
          prev,  \* the newest modification time seen, -1 when none was
          cust,  \* what a source that others added says: which of a few sizes, 0: nothing, -1: an empty message
          conn, alive,
          since, \* rounds since data of a source was last due, up to Every
          last,  \* size of what was due then
          act
vars == <<cfg, file, prev, cust, conn, alive, since, last, act>>
FileBytes == <<400, 440, 460, 500>>
CustBytes == <<100, 139, 140, 180>>
Threshold == 40
Every == IF cfg.trigger THEN 3 ELSE 1
Cfgs == CASE Part = "trigger" -> [provs : {{"file"}}, trigger : {TRUE}, compress : {FALSE}, target : {"dest", ""}]
          [] Part = "file" -> [provs : {{"file"}}, trigger : {FALSE}, compress : BOOLEAN, target : {"dest", ""}]
          [] Part = "custom" -> [provs : {{"custom"}}, trigger : BOOLEAN, compress : {FALSE}, target : {"dest", "agent", ""}]
          [] Part = "both" -> [provs : {{"file", "custom"}, {"file", "inventory"}, {"inventory", "custom"}, {"file", "inventory", "custom"}}, trigger : BOOLEAN, compress : {FALSE}, target : {"dest"}]
Kinds == CASE Part = "trigger" -> {"ok", "gone"} [] Part = "file" -> {"ok", "gone", "empty", "nodir"} [] OTHER -> {"ok"}
Ks == CASE Part = "trigger" -> 1..4 [] Part = "both" -> {1, 4} [] OTHER -> 1..2
Mts == CASE Part = "trigger" -> 0..1 [] Part = "file" -> 0..3 [] OTHER -> {0}
Cs == CASE Part = "custom" -> -1..4 [] Part = "both" -> {1, 4} [] OTHER -> {1}
Conns == IF Part \in {"file", "custom"} THEN BOOLEAN ELSE {TRUE}
------------------------------------------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
Says(p) == CASE p = "file" -> file.kind = "ok" [] p = "custom" -> cust > 0 [] OTHER -> TRUE
Updated == prev # -1 /\ file.mt > prev
Size(p) == CASE p = "file" -> FileBytes[file.k] - (IF Updated THEN 1 ELSE 0) [] p = "custom" -> CustBytes[cust] [] OTHER -> 0
Due(p) == Says(p) /\ (since[p] + 1 >= Every \/ (cfg.trigger /\ Abs(Size(p) - last[p]) >= Threshold))
A(x, n, out) == [x |-> x, n |-> n, out |-> out]
Poll ==
  /\ alive
  /\ act' = A("poll", 0, IF ~conn THEN {} ELSE {[p |-> p, k |-> IF p = "file" THEN file.k ELSE IF p = "custom" THEN cust ELSE 0, upd |-> p = "file" /\ Updated] : p \in {q \in cfg.provs : Due(q)}})
  /\ since' = [p \in cfg.provs |-> IF Due(p) THEN 0 ELSE IF since[p] >= Every THEN since[p] ELSE since[p] + 1]
  /\ last' = [p \in cfg.provs |-> IF Due(p) THEN Size(p) ELSE last[p]]
  /\ prev' = (IF file.kind = "ok" /\ "file" \in cfg.provs /\ (prev = -1 \/ file.mt > prev) THEN file.mt ELSE prev)
  /\ UNCHANGED <<cfg, file, cust, conn, alive>>
Silent == ~alive /\ act' = A("silent", 0, {}) /\ UNCHANGED <<cfg, file, prev, cust, conn, alive, since, last>>
(* the world changes between polls; every poll is seen *)
Quiet == act.x \in {"poll", "start"}
File(f) == "file" \in cfg.provs /\ file' = f /\ f # file /\ UNCHANGED <<cfg, prev, cust, conn, alive, since, last>>
Resize == \E k \in Ks : File([file EXCEPT !.k = k]) /\ act' = A("resize", k, {})
Touch == \E mt \in Mts : File([file EXCEPT !.mt = mt]) /\ act' = A("touch", mt, {})
Become == \E kind \in Kinds : File([file EXCEPT !.kind = kind]) /\ act' = A(kind, 0, {})
Say == "custom" \in cfg.provs /\ \E c \in Cs \ {cust} : cust' = c /\ act' = A("say", c, {}) /\ UNCHANGED <<cfg, file, prev, conn, alive, since, last>>
Flip == Conns = BOOLEAN /\ conn' = ~conn /\ act' = A("conn", IF conn THEN 0 ELSE 1, {}) /\ UNCHANGED <<cfg, file, prev, cust, alive, since, last>>
Stop == alive /\ alive' = FALSE /\ act' = A("stop", 0, {}) /\ UNCHANGED <<cfg, file, prev, cust, conn, since, last>>
Init == /\ cfg \in Cfgs /\ file \in [kind : Kinds, k : {1}, mt : {0}] /\ prev = -1 /\ cust = 1 /\ conn \in Conns /\ alive = TRUE
        /\ since = [p \in cfg.provs |-> Every] /\ last = [p \in cfg.provs |-> 0] /\ act = A("start", 0, {})
Next == Poll \/ Silent \/ (alive /\ (Resize \/ Touch \/ Become \/ Say \/ Flip)) \/ Stop
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* a source never waits for another one *)
NeverStarved == [][act'.x = "poll" /\ conn => \A p \in cfg.provs : Says(p) /\ since[p] + 1 >= Every => \E m \in act'.out : m.p = p]_vars
(* no data is older than the interval where there is data *)
NotFlooded == [][act'.x = "poll" /\ cfg.trigger => \A m \in act'.out : since[m.p] + 1 >= Every \/ Abs(Size(m.p) - last[m.p]) >= Threshold]_vars
SilentWhenStopped == [][~alive => act'.out = {}]_vars
OnlyNewer == [][\A m \in act'.out : m.upd => file.mt > prev /\ prev >= 0]_vars
F == [cfg |-> cfg, file |-> file, prev |-> prev, cust |-> cust, conn |-> conn, alive |-> alive, since |-> since, last |-> last]
View == F
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> F, a |-> act', t |-> F']))
=============================================================================
