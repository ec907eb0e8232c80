---------------------------- MODULE PurityTrace ----------------------------
(* Judges recorded answers.  There are several worlds of arguments.  For   *)
(* every world one behaviour asks every question once, each on a thread of *)
(* its own; all others have to get the same answers.                       *)
EXTENDS Purity, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Worlds == Runs[1][1].worlds
Table == [w \in 1..Worlds |-> [k \in 1..Len(Runs[w]) |-> [q |-> Runs[w][k].q, x |-> Runs[w][k].x]]]
Place == [w \in 1..Worlds |-> [f \in Functions |-> {k \in 1..Len(Runs[w]) : Runs[w][k].q.f = f}]]
VARIABLES r, l
tvars == <<known, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ Begin
T == /\ l <= Len(Runs[r]) /\ E.op = "ask" /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
     /\ IF r <= Worlds THEN Ask(E.q, E.x)
        ELSE (\E k \in Place[E.w][E.q.f] : Table[E.w][k].q = E.q /\ Table[E.w][k].x = E.x) /\ UNCHANGED known
\* Everything was asked.
Done == /\ l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
        /\ r <= Worlds => \A f \in Functions : {k.q : k \in known[f]} = QuestionsOf[f]
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
