---------------------------- MODULE VerifyTrace ----------------------------
(* Judges recorded verifications: the verdict is the specification's, and  *)
(* there always is one.                                                    *)
EXTENDS Verify, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<base, insts, pf, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 2 /\ Begin(Runs[r][1].base)
IsOp(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
T == \/ IsOp("replace") /\ Replace(E.i, E.f, E.x)
     \/ IsOp("all") /\ ReplaceAll(E.f, E.x)
     \/ IsOp("swap") /\ Swap(E.i, E.j)
     \/ IsOp("drop") /\ Drop(E.i)
     \/ IsOp("dup") /\ Insert(E.i, insts[E.k])
     \/ IsOp("foreign") /\ Insert(E.i, Foreign)
     \/ IsOp("reproof") /\ Reproof(E.x)
     \/ IsOp("verify") /\ E.res = Verdict /\ UNCHANGED vvars
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
