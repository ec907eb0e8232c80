----------------------------- MODULE AuthTrace -----------------------------
(* Judges recorded authorizations of real bundles against Auth.            *)
EXTENDS Auth, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES r, l
tvars == <<lay, proof, ph, h, why, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 2 /\ Start(Runs[r][1].layout)
IsOp(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r

\* The state of the slots, as the bundle shows it.
ShownSlots(p, w) == IF p \in {"partial", "final"}
                    THEN [i \in 1..Len(lay) |-> IF w[i] = "no" THEN "unsigned" ELSE "valid"]
                    ELSE <<>>
Lifecycle == /\ E.slots = ShownSlots(ph', why')
             /\ E.seal = (IF ph' = "final" THEN "valid" ELSE "none")
             /\ (ph' = "failed" <=> E.eff = "none")

\* C05: the lifecycle.
C05(act, res) == act /\ E.res = res /\ Lifecycle
T05 == \/ IsOp("prove") /\ C05(Prove, "Ok")
       \/ IsOp("prepare") /\ C05(Prepare(E.h), "Ok")
       \/ IsOp("sign") /\ C05(Sign(E.key), "Ok")
       \/ IsOp("append") /\ C05(AppendSigs(E.sigs), AppendRes(E.sigs))
       \/ IsOp("finalize") /\ C05(Finalize, FinalizeRes)
       \/ IsOp("apply") /\ C05(Apply(E.h, E.keys), ApplyRes(E.keys))
       \/ IsOp("retype") /\ C05(Retype(E.ok), IF E.ok THEN "Ok" ELSE "refused")

\* C06: whatever happened to the slots, the bundle still does the same, every datum is
\* with its own action, and a refused step leaves no bundle.
T06 == /\ l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
       /\ E.eff = (IF E.res = "Ok" THEN "same" ELSE "none")
       /\ E.aligned
       /\ \A i \in 1..Len(E.slots) : E.slots[i] # "invalid"
       /\ E.seal # "invalid"
       /\ (E.op = "retype" => E.res = (IF E.ok THEN "Ok" ELSE "refused"))
       /\ UNCHANGED avars

Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == (IF Focus = "C06" THEN T06 ELSE T05) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
