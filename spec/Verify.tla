------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* Proof verification.  A proof was made for a sequence of instances, the  *)
(* base.  What is offered to the verifier is a sequence of instances and   *)
(* proof bytes; an adversary edits both.  Values are named by what they    *)
(* are in the base: "nf2" is the nullifier of the second instance, "-cv1"  *)
(* the opposite of the first value commitment, "id" the identity, "zero"   *)
(* the zero field element, "fresh..." something else.  Index 9 names an    *)
(* instance of another proof.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Inst(i, es, eo) == LET s == ToString(i) IN
   [anchor |-> "anchor" \o s, cv |-> "cv" \o s, nf |-> "nf" \o s, rk |-> "rk" \o s, cmx |-> "cmx" \o s, es |-> es, eo |-> eo]
Shared(i, es, eo) == [Inst(i, es, eo) EXCEPT !.anchor = "anchor1"]
\* The bases: two actions with their own anchors and flags; one action; one whose
\* randomized key and value commitment are the identity; a built bundle of three actions.
BaseOf(b) == CASE b = "pair" -> << Inst(1, TRUE, FALSE), Inst(2, FALSE, TRUE) >>
               [] b = "one" -> << Inst(1, FALSE, TRUE) >>
               [] b = "identity" -> << [Inst(1, TRUE, TRUE) EXCEPT !.rk = "id", !.cv = "id"] >>
               [] b = "bundle" -> << Shared(1, TRUE, TRUE), Shared(2, TRUE, TRUE), Shared(3, TRUE, TRUE) >>
Foreign == Inst(9, TRUE, TRUE)

VARIABLES base, insts, pf
vvars == <<base, insts, pf>>
Begin(b) == base = b /\ insts = BaseOf(b) /\ pf = "made"

Replace(i, f, x) == i \in 1..Len(insts) /\ insts[i][f] # x /\ insts' = [insts EXCEPT ![i][f] = x] /\ UNCHANGED <<base, pf>>
\* The same for all instances, as the anchor and the flags of a bundle are.
ReplaceAll(f, x) == insts' = [i \in 1..Len(insts) |-> [insts[i] EXCEPT ![f] = x]] /\ insts' # insts /\ UNCHANGED <<base, pf>>
Swap(i, j) == i < j /\ j <= Len(insts) /\ insts' = [insts EXCEPT ![i] = insts[j], ![j] = insts[i]] /\ UNCHANGED <<base, pf>>
Drop(i) == i \in 1..Len(insts) /\ insts' = SubSeq(insts, 1, i - 1) \o SubSeq(insts, i + 1, Len(insts)) /\ UNCHANGED <<base, pf>>
Insert(i, x) == i \in 0..Len(insts) /\ insts' = SubSeq(insts, 1, i) \o <<x>> \o SubSeq(insts, i + 1, Len(insts)) /\ UNCHANGED <<base, pf>>
\* "again": another proof of the base; "other": a proof of another base; a bit of the
\* k-th sixteenth of the bytes inverted; shortened; empty.
Proofs == {"made", "again", "other", "short", "empty"} \cup {"bit" \o ToString(k) : k \in 0..15}
Reproof(x) == pf # x /\ pf' = x /\ UNCHANGED <<base, insts>>

GoodProof == pf \in {"made", "again"}
Verdict == IF GoodProof /\ insts = BaseOf(base) THEN "valid" ELSE "invalid"
\* As the actions of one bundle: one anchor, one pair of flags.
Uniform == Len(insts) > 0 /\ \A i \in 1..Len(insts) : \A f \in {"anchor", "es", "eo"} : insts[i][f] = insts[1][f]
=============================================================================
