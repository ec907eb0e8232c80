------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Batch validation.  A batch collects bundles, each with the sighash it   *)
(* is claimed to be for; validating accepts exactly when every proof and   *)
(* every signature of every member is valid on its own.                    *)
(*                                                                         *)
(* A member is a bundle with defects:                                      *)
(*   b      which bundle it came from          h     the claimed sighash   *)
(*   proof  "own", "bent", "other", "empty"    bal   offset of its balance *)
(*   insts  "own", "anchor", "flags", "order"  ss    spend signatures      *)
(*   bs     binding signature                                              *)
(* A signature was made by its own key or a peer's, for a sighash, and may *)
(* be off: its scalar by +1 or -1, or (9) replaced by noise.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NActs(b) == CASE b = "a" -> 2 [] b = "b" -> 2 [] b = "c" -> 1 [] b = "d" -> 3 [] b = "e" -> 2
Sig(h) == [by |-> "own", h |-> h, off |-> 0]
Good(b, h) == [b |-> b, h |-> h, proof |-> "own", insts |-> "own", bal |-> 0,
               ss |-> [i \in 1..NActs(b) |-> Sig(h)], bs |-> Sig(h)]

SigOk(m, s) == s.by = "own" /\ s.h = m.h /\ s.off = 0
ProofOk(m) == m.proof = "own" /\ m.insts = "own"
Facts(m) == [proof |-> ProofOk(m), ss |-> [i \in 1..Len(m.ss) |-> SigOk(m, m.ss[i])], bs |-> SigOk(m, m.bs) /\ m.bal = 0]
Valid(m) == LET f == Facts(m) IN f.proof /\ f.bs /\ \A i \in 1..Len(f.ss) : f.ss[i]

VARIABLES batch
AddBundle(m) == batch' = Append(batch, m)
Verdict == \A i \in 1..Len(batch) : Valid(batch[i])
=============================================================================
