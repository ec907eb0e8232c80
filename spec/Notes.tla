------------------------------- MODULE Notes -------------------------------
(***************************************************************************)
(* Notes, their commitments and nullifiers.  A note is named by its        *)
(* components: whose address, in which scope, with which diversifier,      *)
(* value, rho and seed.  Its commitment and its nullifier under a key are  *)
(* terms of Protocol.                                                      *)
(* On a chain, an action reveals the nullifier of the note it spends and   *)
(* creates a note whose rho is that nullifier.                             *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets, TLC

\* Full viewing keys: of two seeds, and one sharing its nullifier key with A and the rest with B.
FvkNamed == [A |-> FvkOf(V("skA")), B |-> FvkOf(V("skB")),
             M |-> [ak |-> AkOf(Ask(V("skB"))), nk |-> Nk(V("skA")), rivk |-> Rivk(V("skB"))]]
Owners == DOMAIN FvkNamed
\* The address of a name: an owner's; or nobody's, A's key with another diversifier.
PkdOf(id) == IF id.own = "X" THEN PkD(IvkOf(FvkNamed["A"]), V("dx"))
             ELSE PkD(IvkOf(Scoped(FvkNamed[id.own], id.scope)), V(id.d))
NoteOf(id) == [d |-> V(id.d), pkd |-> PkdOf(id), v |-> V(id.v), rho |-> V(id.rho), rseed |-> V(id.rs)]

---------------------------------------------------------------------------
(* A chain of notes: what is known of each note, and the nullifiers seen.  *)
VARIABLES notes,  \* creation order: [cm |-> , nf |-> ] of every note
          seen,   \* revealed nullifiers
          spent   \* indices of spent notes
nvars == <<notes, seen, spent>>
\* An action spends note i (0: a dummy) revealing nf, and creates a note with nullifier
\* new (or, for "none", a dummy nobody knows).
Action1(i, nf, new) ==
  /\ i # 0 => i \in 1..Len(notes) \ spent /\ nf = notes[i].nf
  /\ nf \notin seen
  /\ seen' = seen \cup {nf}
  /\ spent' = IF i = 0 THEN spent ELSE spent \cup {i}
  /\ notes' = IF new = [cm |-> "none", nf |-> "none"] THEN notes ELSE Append(notes, new)
OneNullifier == \A i, j \in 1..Len(notes) : i # j => notes[i].nf # notes[j].nf /\ notes[i].cm # notes[j].cm
SpentSeen == \A i \in 1..Len(notes) : (i \in spent) = (notes[i].nf \in seen)
=============================================================================
