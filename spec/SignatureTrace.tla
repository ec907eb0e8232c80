--------------------------- MODULE SignatureTrace ---------------------------
(* Judges recorded verifications of signatures.                            *)
EXTENDS Signature, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<bun, cvs, bal, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == /\ r \in 1..Len(Runs)
        /\ IF Runs[r][1].op = "bundle" THEN l = 2 /\ Begin(Runs[r][1].b) ELSE l = 1 /\ Begin("a")
Step(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
\* The library's verdict, and that of the protocol's equation.
Says(ok) == E.res = ok /\ E.eq = ok
\* After an edit the binding key is the one the commitments and the balance determine.
Bvk == E.bvk = E.want
T == \/ (Step("spend") \/ Step("slot")) /\ Says(SpendOk(E)) /\ UNCHANGED bvars
     \/ Step("shift") /\ Bvk /\ Shift(E.i, E.d, E.e)
     \/ Step("set") /\ Bvk /\ SetCv(E.i, CASE E.to = "id" -> Nothing(bun) [] E.to = "neg" -> Opposite(cvs[E.i]) [] E.to = "alien" -> [Nothing(bun) EXCEPT !.alien = 1]
                                 [] E.to = "own" -> Own(bun, E.k) [] E.to = "plus" -> Plus(cvs[E.i], cvs[E.k]))
     \/ Step("swap") /\ Bvk /\ Swap(E.i, E.j)
     \/ Step("drop") /\ Bvk /\ Drop(E.i)
     \/ Step("dup") /\ Bvk /\ Dup(E.i, E.k)
     \/ Step("flags") /\ Bvk /\ Irrelevant
     \/ Step("anchor") /\ Bvk /\ Irrelevant
     \/ Step("rebalance") /\ Bvk /\ Rebalance(E.k)
     \/ Step("extreme") /\ Bvk /\ Extreme(E.w)
     \/ Step("binding") /\ Says(BindingOk(E)) /\ UNCHANGED bvars
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
