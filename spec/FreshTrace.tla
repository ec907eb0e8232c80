----------------------------- MODULE FreshTrace -----------------------------
(* Judges recorded builds: each takes an arrangement and new names only;    *)
(* after the last one everything that can occur has.                        *)
EXTENDS Fresh, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<fvars, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == /\ r \in 1..Len(Runs) /\ l = 2 /\ Runs[r][1].op = "layout"
        /\ FNew(Runs[r][1].type, Runs[r][1].spends, Runs[r][1].outputs, Runs[r][1].base)
Step(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
Plus1(s) == [i \in 1..Len(s) |-> s[i] + 1]
T == \/ Step("build") /\ FBuild(Plus1(E.fs), Plus1(E.fo)) /\ E.acts = Bundle(acts', next)
     \/ Step("end") /\ seen = AllFacts /\ UNCHANGED fvars
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
