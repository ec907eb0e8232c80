--------------------------- MODULE SamenessTrace ---------------------------
EXTENDS Sameness, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<seen, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ Begin
IsOp(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
T == \/ /\ IsOp("compare") /\ Compare(E.t, E.x, E.y, Same(E.t, E.x, E.y))
        /\ (E.t \in Plain => E.eq = Same(E.t, E.x, E.y) /\ E.ne = ~E.eq)
        /\ (E.t \in Constant => E.ct = Same(E.t, E.x, E.y))
     \/ IsOp("order") /\ Total(E.t, E.objs, E.cmp) /\ E.ops = "agree" /\ UNCHANGED seen
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
