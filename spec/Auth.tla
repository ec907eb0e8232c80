-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* The life of a built bundle: proving, loading the sighash, signing with  *)
(* keys, appending externally made signatures, and finalizing.             *)
(*                                                                         *)
(* A layout is the sequence of the bundle's spend slots (requested spends  *)
(* in request order, then dummies):                                        *)
(*   [owner |-> a party, or "dummy", rk |-> n]                             *)
(* Two slots have equal rk numbers when their randomized keys coincide.    *)
(* A signature is [key |-> signer, rk |-> n, h |-> sighash, form |-> f]:   *)
(* form "good" is made with the signing key of randomized key rk; any      *)
(* other form is no valid signature for anything.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES lay,     \* the layout (an effect of the bundle: never changes)
          proof,   \* "no", "yes"
          ph,      \* "unauth", "partial", "final", "failed"
          h,       \* the sighash loaded, "-" before
          why      \* per slot: "no" or how it was signed: "dummy", "key", "ext"

avars == <<lay, proof, ph, h, why>>
Slots == 1..Len(lay)
Signed(i) == why[i] # "no"
AllSigned == \A i \in Slots : Signed(i)

Start(la) == /\ lay = la /\ proof = "no" /\ ph = "unauth" /\ h = "-"
             /\ why = [i \in 1..Len(la) |-> "no"]

ValidFor(s, i, hh) == s.form = "good" /\ s.rk = lay[i].rk /\ s.h = hh

---------------------------------------------------------------------------
Prove == /\ proof = "no" /\ ph \in {"unauth", "partial"}
         /\ proof' = "yes" /\ UNCHANGED <<lay, ph, h, why>>

AfterPrepare == [i \in Slots |-> IF lay[i].owner = "dummy" THEN "dummy" ELSE "no"]
AfterSign(w, k) == [i \in Slots |-> IF w[i] = "no" /\ lay[i].owner = k THEN "key" ELSE w[i]]

Prepare(hh) == /\ ph = "unauth"
               /\ ph' = "partial" /\ h' = hh /\ why' = AfterPrepare
               /\ UNCHANGED <<lay, proof>>

Sign(k) == /\ ph = "partial"
           /\ why' = AfterSign(why, k)
           /\ UNCHANGED <<lay, proof, ph, h>>

\* The unsigned slots a signature is valid for, given the slots' state w.
Targets(w, s) == {i \in Slots : w[i] = "no" /\ ValidFor(s, i, h)}

\* Appending a list: one after the other, stopping at the first error.
RECURSIVE Appended(_, _)
Appended(w, ss) ==
  IF ss = <<>> THEN [res |-> "Ok", w |-> w]
  ELSE LET tg == Targets(w, ss[1]) IN
       CASE Cardinality(tg) = 0 -> [res |-> "InvalidExternalSignature", w |-> w]
         [] Cardinality(tg) > 1 -> [res |-> "DuplicateSignature", w |-> w]
         [] OTHER -> Appended([i \in Slots |-> IF i \in tg THEN "ext" ELSE w[i]], Tail(ss))

AppendSigs(ss) ==
  /\ ph = "partial"
  /\ LET a == Appended(why, ss) IN
     IF a.res = "Ok" THEN why' = a.w /\ ph' = ph
     ELSE why' = why /\ ph' = "failed"
  /\ UNCHANGED <<lay, proof, h>>
AppendRes(ss) == Appended(why, ss).res

Finalize == /\ ph = "partial" /\ proof = "yes"
            /\ ph' = IF AllSigned THEN "final" ELSE "failed"
            /\ UNCHANGED <<lay, proof, h, why>>
FinalizeRes == IF AllSigned THEN "Ok" ELSE "MissingSignatures"

\* The one-step helper: prepare, sign with each key, finalize.
RECURSIVE SignAll(_, _)
SignAll(w, ks) == IF ks = <<>> THEN w ELSE SignAll(AfterSign(w, ks[1]), Tail(ks))
ApplyOk(ks) == \A i \in Slots : SignAll(AfterPrepare, ks)[i] # "no"
Apply(hh, ks) ==
  /\ ph = "unauth" /\ proof = "yes"
  /\ h' = hh
  /\ IF ApplyOk(ks)
     THEN ph' = "final" /\ why' = SignAll(AfterPrepare, ks)
     ELSE ph' = "failed" /\ why' = why
  /\ UNCHANGED <<lay, proof>>
ApplyRes(ks) == IF ApplyOk(ks) THEN "Ok" ELSE "MissingSignatures"

\* Re-typing the authorization or the balance; the caller's function may refuse.  ("twins":
\* the same on bundles in which the actions are repeated and rearranged.)
Retype(ok) == /\ ph # "failed"
              /\ ph' = IF ok THEN ph ELSE "failed"
              /\ UNCHANGED <<lay, proof, h, why>>

---------------------------------------------------------------------------
(* C05 *)
FinalMeansSigned == ph = "final" => AllSigned /\ proof = "yes" /\ h # "-"
OnlyDummiesSignThemselves ==
  \A i \in Slots : /\ why[i] = "dummy" => lay[i].owner = "dummy"
                   /\ (lay[i].owner = "dummy" /\ ph \in {"partial", "final"}) => why[i] = "dummy"
NothingSignedBeforePrepare == h = "-" => \A i \in Slots : ~Signed(i)
\* Once signed, a slot stays signed the same way; the layout and the sighash stay.
Monotone == [][/\ lay' = lay
               /\ (h # "-" => h' = h)
               /\ \A i \in Slots : Signed(i) => why'[i] = why[i]
               /\ (ph \in {"final"} => ph' \in {"final", "failed"})]_avars
=============================================================================
