----------------------------- MODULE BatchTrace -----------------------------
(* Judges recorded batches: each member's own checks, and the verdict.     *)
EXTENDS Batch, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<batch, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ batch = <<>>
Step(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
T == \/ Step("add") /\ E.facts = Facts(E.m) /\ AddBundle(E.m)
     \/ Step("validate") /\ E.res = Verdict /\ UNCHANGED batch
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
