--------------------------- MODULE StatementTrace ---------------------------
(* Judges recorded attempts to prove statements.                           *)
EXTENDS Statement, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1
TProve == /\ l <= Len(Runs[r]) /\ E.op = "prove" /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
          /\ E.res = Outcome(E.w, E.p)
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TProve \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
