-------------------------------- MODULE Agents --------------------------------
(* The set of agents of a server and the requests being handled by them.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGen, MaxPend, Kinds
VARIABLES mode,     \* any: all agents; svc: service agents only; deny: agent b is on the deny list
          known,    \* name -> [k, g] or none, g tells instances apart
          gen,      \* instances made
          pend,     \* requests being handled: [n, k, g, bad], in order of arrival
          up,
          act
vars == <<mode, known, gen, pend, up, act>>
View == <<mode, known, gen, pend, up>>
Names == {"a", "b"}
None == [k |-> "none", g |-> 0]
(* plain and quick ones differ in their timeout; idle refuses to activate; zero has no timeout; anon no name *)
Service(k) == k = "service"
Valid(k) == k \notin {"zero", "anon"}
Denied(n) == mode = "deny" /\ n = "b"
A(op, n, k, w, res) == [op |-> op, n |-> n, k |-> k, w |-> w, res |-> res]
Init == /\ mode \in {"any", "svc", "deny"} /\ known = [n \in Names |-> None] /\ gen = 0 /\ pend = <<>> /\ up = TRUE
        /\ act = A("init", "", "", "", "ok")
(* a request that will run out of time has to be seen to do so first *)
Quick == \E i \in 1..Len(pend) : pend[i].k = "quick" /\ ~pend[i].gone
Free == up /\ ~Quick
------------------------------------------------------------------------------
(* the connection fails the w-th subscription: 0 none, 1 the first, 2 the second *)
Register(n, k, w) ==
  /\ Free /\ gen < MaxGen
  /\ LET refused == (mode = "svc" /\ ~Service(k)) \/ k = "idle" \/ Denied(n)
         res == IF ~Valid(k) THEN "error" ELSE IF refused THEN "ok" ELSE IF known[n] # None \/ w > 0 THEN "error" ELSE "ok"
         new == Valid(k) /\ ~refused /\ res = "ok"
     IN /\ known' = IF new THEN [known EXCEPT ![n] = [k |-> k, g |-> gen + 1]] ELSE known
        /\ gen' = IF new THEN gen + 1 ELSE gen
        /\ act' = A("register", n, k, ToString(w), res)
  /\ UNCHANGED <<mode, pend, up>>
Unregister(n) ==
  /\ Free
  /\ known' = [known EXCEPT ![n] = None]
  /\ act' = A("unregister", n, "", "", IF known[n] = None THEN "error" ELSE "ok")
  /\ UNCHANGED <<mode, gen, pend, up>>
Replace(n, k) ==
  /\ Free /\ gen < MaxGen
  /\ LET ok == Valid(k) /\ k # "idle" /\ known[n] # None /\ Service(known[n].k) = Service(k)
     IN /\ known' = IF ok THEN [known EXCEPT ![n] = [k |-> k, g |-> gen + 1]] ELSE known
        /\ gen' = IF ok THEN gen + 1 ELSE gen
        /\ act' = A("replace", n, k, "", IF ok THEN "ok" ELSE "error")
  /\ UNCHANGED <<mode, pend, up>>
Dispatch(n) ==
  /\ Free
  /\ IF known[n] = None THEN UNCHANGED pend /\ act' = A("dispatch", n, "", "", "nothing")
     ELSE /\ Len(pend) < MaxPend
          /\ pend' = Append(pend, [n |-> n, k |-> known[n].k, g |-> known[n].g, gone |-> FALSE])
          /\ act' = A("dispatch", n, known[n].k, "", "started")
  /\ UNCHANGED <<mode, known, gen, up>>
Drop(i) == pend' = [j \in 1..(Len(pend) - 1) |-> IF j < i THEN pend[j] ELSE pend[j + 1]]
(* the agent answers, answers with an error, or answers twice: the first answer is the one *)
Answer(i, w) ==
  /\ up /\ i \in 1..Len(pend) /\ (Quick => pend[i].k = "quick")
  /\ Drop(i)
  /\ act' = A("answer", ToString(i), pend[i].k, w, IF w = "fail" THEN "error" ELSE "reply")
  /\ UNCHANGED <<mode, known, gen, up>>
(* the agent does not answer in time *)
Timeout(i) ==
  /\ up /\ i \in 1..Len(pend) /\ pend[i].k = "quick"
  /\ Drop(i)
  /\ act' = A("timeout", ToString(i), "quick", "", "error")
  /\ UNCHANGED <<mode, known, gen, up>>
(* the server shuts down: everything that is pending is answered with an error *)
Shutdown ==
  /\ up /\ up' = FALSE /\ pend' = <<>>
  /\ act' = A("shutdown", "", "", ToString(Len(pend)), "error")
  /\ UNCHANGED <<mode, known, gen>>
Next == \/ \E n \in Names, k \in Kinds : Register(n, k, 0) \/ Replace(n, k)
        \/ \E n \in Names, k \in {"plain", "service"}, w \in {1, 2} : Register(n, k, w)
        \/ \E n \in Names : Unregister(n) \/ Dispatch(n)
        \/ \E i \in 1..MaxPend, w \in {"reply", "fail", "twice"} : Answer(i, w)
        \/ \E i \in 1..MaxPend : Timeout(i)
        \/ Shutdown
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
OnlyAllowed == \A n \in Names : known[n] # None =>
                 /\ Valid(known[n].k) /\ known[n].k # "idle" /\ ~Denied(n) /\ (mode = "svc" => Service(known[n].k))
HandledByKnown == \A i \in 1..Len(pend) : pend[i].k # "none" /\ pend[i].g > 0
OneEach == [][Len(pend') < Len(pend) => (Len(pend') = Len(pend) - 1 \/ act'.op = "shutdown")]_vars
NeverChanges == [][\A i \in 1..Len(pend') : \E j \in 1..(Len(pend) + 1) : IF j <= Len(pend) THEN pend'[i] = pend[j] ELSE act'.op = "dispatch"]_vars
St(kn, p, u) == [known |-> kn, pend |-> p, up |-> u, mode |-> mode]
EmitRow == PrintT("@@" \o ToJson([l |-> TLCGet("level"), f |-> [mode |-> mode, known |-> known, gen |-> gen, pend |-> pend, up |-> up], a |-> act',
                                  t |-> [mode |-> mode, known |-> known', gen |-> gen', pend |-> pend', up |-> up']]))
=============================================================================
