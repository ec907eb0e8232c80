------------------------------- MODULE Whole -------------------------------
(***************************************************************************)
(* The whole life of a bundle: requests are admitted and built (Builder),  *)
(* the bundle is proven and signed in either order, finalized, and checked *)
(* by everyone who may check it.  Nothing that the builder accepted can    *)
(* fail later, provided the owners of the spent notes sign.                *)
(***************************************************************************)
EXTENDS Builder

VARIABLES proved, hash, signed, final, checked
wvars == <<proved, hash, signed, final, checked>>
allvars == <<bvars, wvars>>

WNew(ty) == New(ty) /\ proved = FALSE /\ hash = "-" /\ signed = {} /\ final = FALSE /\ checked = FALSE

Owners == {spends[i].key : i \in 1..Len(spends)}

\* Any built bundle can be proven, before or after signing.
Prove == phase = "built" /\ ~proved /\ ~final /\ proved' = TRUE /\ UNCHANGED <<bvars, hash, signed, final, checked>>
Prepare(h) == phase = "built" /\ hash = "-" /\ hash' = h /\ UNCHANGED <<bvars, proved, signed, final, checked>>
Sign(k) == hash # "-" /\ ~final /\ signed' = signed \cup {k} /\ UNCHANGED <<bvars, proved, hash, final, checked>>
\* Complete once proven and signed by every owner; dummy spends need no one.
Finalize == proved /\ hash # "-" /\ ~final /\ Owners \subseteq signed /\ final' = TRUE /\ UNCHANGED <<bvars, proved, hash, signed, checked>>

\* What each check says of a complete bundle: yes.
AllYes(n) == [proof |-> TRUE, sigs |-> [a \in 1..n |-> TRUE], binding |-> TRUE, batch |-> TRUE, wire |-> TRUE, other |-> FALSE]
Check(facts) == final /\ facts = AllYes(Len(acts)) /\ checked' = TRUE /\ UNCHANGED <<bvars, proved, hash, signed, final>>

\* C04: the life of an accepted request never gets stuck before its checks (unless the
\* builder reports an amount out of range, or there is nothing to build).
NeverStuck == (phase = "built" /\ ~checked) =>
   \/ ~proved \/ hash = "-" \/ (\E k \in Owners : k \notin signed) \/ ~final
   \/ (final /\ Owners \subseteq signed)
Valid == final => (proved /\ Owners \subseteq signed /\ phase = "built")
=============================================================================
