----------------------------- MODULE Signature -----------------------------
(***************************************************************************)
(* Spend-authorization and binding signatures (RedDSA over Pallas).        *)
(*                                                                         *)
(* A key is a party's, randomized by some scalar; a signature verifies     *)
(* exactly under the key that made it and for the message it was made for. *)
(*                                                                         *)
(* A bundle's binding key is the sum of its value commitments minus its    *)
(* balance times the value base.  Commitments are written relative to the  *)
(* built bundle: coefficients of the original commitments, plus multiples  *)
(* d of a value unit and e of the trapdoor base; the balance is off by bal *)
(* units.  The binding signature verifies exactly when the sum is what it  *)
(* was: every original commitment once, d = bal and e = 0.                 *)
(***************************************************************************)
EXTENDS Protocol, TLC, SequencesExt

\* The RedDSA verification equation, for variables R, S, vk and msg.
Challenge == ToScalar(Blake(64, "Zcash_RedPallasH", Cat(<<Repr(V("R")), Repr(V("vk")), V("msg")>>)))
Lhs(g) == Repr(Mul(V("S"), g))
Rhs == Repr(Add(V("R"), Mul(Challenge, V("vk"))))

Key(who, alpha) == [who |-> who, alpha |-> alpha]
SpendOk(e) == e.sig.key = e.key /\ e.sig.msg = e.msg /\ e.sig.off = 0

VARIABLES bun, cvs, bal    \* which bundle; its commitments; balance offset
bvars == <<bun, cvs, bal>>
N(b) == CASE b = "a" -> 2 [] b = "c" -> 1 [] b = "d" -> 3
Own(b, i) == [at |-> [j \in 1..N(b) |-> IF j = i THEN 1 ELSE 0], alien |-> 0, d |-> 0, e |-> 0]
Nothing(b) == [at |-> [j \in 1..N(b) |-> 0], alien |-> 0, d |-> 0, e |-> 0]
Opposite(c) == [at |-> [j \in DOMAIN c.at |-> -c.at[j]], alien |-> -c.alien, d |-> -c.d, e |-> -c.e]
Plus(x, y) == [at |-> [j \in DOMAIN x.at |-> x.at[j] + y.at[j]], alien |-> x.alien + y.alien, d |-> x.d + y.d, e |-> x.e + y.e]
Sum(F(_), s) == FoldLeft(LAMBDA a, c : a + F(c), 0, s)
Total(b, s) == [at |-> [j \in 1..N(b) |-> Sum(LAMBDA c : c.at[j], s)], alien |-> Sum(LAMBDA c : c.alien, s),
                d |-> Sum(LAMBDA c : c.d, s), e |-> Sum(LAMBDA c : c.e, s)]

Begin(b) == bun = b /\ cvs = [i \in 1..N(b) |-> Own(b, i)] /\ bal = 0
SetCv(i, c) == i \in 1..Len(cvs) /\ cvs[i] # c /\ cvs' = [cvs EXCEPT ![i] = c] /\ UNCHANGED <<bun, bal>>
Shift(i, d, e) == i \in 1..Len(cvs) /\ cvs' = [cvs EXCEPT ![i].d = @ + d, ![i].e = @ + e] /\ UNCHANGED <<bun, bal>>
Swap(i, j) == i < j /\ j <= Len(cvs) /\ cvs' = [cvs EXCEPT ![i] = cvs[j], ![j] = cvs[i]] /\ UNCHANGED <<bun, bal>>
Drop(i) == i \in 1..Len(cvs) /\ Len(cvs) > 1 /\ cvs' = SubSeq(cvs, 1, i - 1) \o SubSeq(cvs, i + 1, Len(cvs)) /\ UNCHANGED <<bun, bal>>
Dup(i, k) == i \in 1..Len(cvs) /\ cvs' = cvs \o [j \in 1..k |-> cvs[i]] /\ UNCHANGED <<bun, bal>>
\* Flags and anchor have no part in it.
Irrelevant == UNCHANGED bvars
Rebalance(k) == bal' = bal + k /\ UNCHANGED <<bun, cvs>>
\* The balance replaced by an extreme of its range, far from everything else.
Far == 1000
Extreme(w) == bal' = (IF w = "min" THEN -Far ELSE Far) /\ UNCHANGED <<bun, cvs>>

Bound == LET t == Total(bun, cvs) IN (\A j \in DOMAIN t.at : t.at[j] = 1) /\ t.alien = 0 /\ t.d = bal /\ t.e = 0
BindingOk(e) == Bound /\ e.by = bun /\ e.sh = e.h /\ e.off = 0
=============================================================================
