----------------------------- MODULE WholeTrace -----------------------------
(* Judges recorded lives of bundles.  Admission, contents and amounts are   *)
(* other properties' business: here an accepted request must go through.    *)
EXTENDS Whole, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l, ended
tvars == <<allvars, r, l, ended>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 2 /\ ended = FALSE /\ Runs[r][1].op = "new" /\ WNew(Runs[r][1].type)
Step(op) == l <= Len(Runs[r]) /\ ~ended /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
Go == ended' = FALSE
Ident(k) == [i \in 1..k |-> i]
T ==
  \* What the builder accepts is recorded as it says; a refusal leaves nothing to prove.
  \/ Step("add_spend") /\ Go /\ IF E.res = "Ok" THEN spends' = Append(spends, E.req) /\ UNCHANGED <<t, outputs, phase, acts, wvars>> ELSE UNCHANGED allvars
  \/ Step("add_output") /\ Go /\ IF E.res = "Ok" THEN outputs' = Append(outputs, E.req) /\ UNCHANGED <<t, spends, phase, acts, wvars>> ELSE UNCHANGED allvars
  \/ Step("build") /\ E.res # "bundle" /\ ended' = TRUE /\ UNCHANGED allvars
  \/ Step("build") /\ E.res = "bundle" /\ Go /\ phase' = "built" /\ acts' = [a \in 1..E.n |-> [s |-> 0, o |-> 0]] /\ UNCHANGED <<t, spends, outputs, wvars>>
  \/ Step("prove") /\ E.res = "ok" /\ Go /\ Prove
  \/ Step("prepare") /\ Go /\ Prepare("h1")
  \/ Step("sign") /\ Go /\ Sign(E.key)
  \/ Step("finalize") /\ E.res = "ok" /\ Go /\ Finalize
  \/ Step("check") /\ Go /\ Check(E.facts)
Skip == ended /\ l <= Len(Runs[r]) /\ l' = l + 1 /\ UNCHANGED <<allvars, r, ended>>
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Skip \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
