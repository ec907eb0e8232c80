---------------------------- MODULE ValuesTrace ----------------------------
(* Judges recorded arithmetic on real values and commitments.              *)
EXTENDS Values, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES obj, seen, r, l
tvars == <<obj, seen, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ obj = [k |-> "none"] /\ seen = [k \in {} |-> ""]
Step == l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
\* What the library says about a sum: its value, and its conversion to 64 bits.
Shows(o) == IF o.k = "overflow" THEN E.res = "overflow"
            ELSE E.res = "ok" /\ E.v = o.v /\ E.i64 = AsI64(o) /\ (E.i64 = "fits" => E.vi64 = o.v)
TDiff == Step /\ E.op = "diff" /\ obj' = Diff(E.x, E.y) /\ Shows(obj') /\ UNCHANGED seen
TPlus == Step /\ E.op = "plus" /\ obj.k = "sum" /\ obj' = Plus(obj, E.x, E.y) /\ Shows(obj') /\ UNCHANGED seen
TTotal == Step /\ E.op = "total" /\ obj' \in Total(E.list) /\ Shows(obj') /\ UNCHANGED seen
\* Commitments: exact, and different for different values or trapdoors.
Kept(o) == LET key == <<o.v, o.a, o.b>> IN
           /\ E.got = E.want
           /\ \A k \in DOMAIN seen : (k = key) = (seen[k] = E.got)
           /\ seen' = (key :> E.got) @@ seen
Part == Cm2(E.v, E.a, E.b)
TCommit == Step /\ E.op = "commit" /\ obj' = Part /\ Kept(obj')
TAdd == Step /\ E.op = "cvadd" /\ obj' = CvAdd(obj, Part) /\ Kept(obj')
TSub == Step /\ E.op = "cvsub" /\ obj' = CvSub(obj, Part) /\ Kept(obj')
TSum == Step /\ E.op = "cvsum" /\ obj' = CvSum(E.list) /\ Kept(obj')
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TDiff \/ TPlus \/ TTotal \/ TCommit \/ TAdd \/ TSub \/ TSum \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
