------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* A chain that accepts bundles, the parties who use it, and those who     *)
(* would cheat it.  A node accepts a submission exactly when batch         *)
(* validation passes (the proof was made for these public values and they  *)
(* are true, every spend is signed by its owner for this content, and the  *)
(* binding signature matches the declared balance), its anchor is a past   *)
(* root, and its nullifiers are new and distinct.                          *)
(*                                                                         *)
(* Content of a bundle: [id, ss, os, root, decl, flags, alt]               *)
(*   ss   spent notes (indices into notes)  os   outputs [to, scope, v]    *)
(*   root the anchor: the root after so many accepted bundles (-1: none)   *)
(*   decl the declared balance: value leaving the pool                     *)
(*   alt  "-" or what part of it was tampered with                         *)
(* A submission is content with a proof (made for some public content),    *)
(* signatures [by, over] and a binding signature over some content.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Parties

VARIABLES notes,    \* every note created: [owner, scope, v, born]
          spent,    \* indices of notes spent
          pool,     \* value held
          height,   \* bundles accepted
          made,     \* bundles made so far: submissions
          inchain,  \* ids of accepted bundles
          log       \* spends that happened: [note, by]
lvars == <<notes, spent, pool, height, made, inchain, log>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Net(c) == Sum([i \in 1..Len(c.ss) |-> notes[c.ss[i]].v]) - Sum([i \in 1..Len(c.os) |-> c.os[i].v])

\* What a proof is about: not the balance, nor the ciphertexts.
Pub(c) == [c EXCEPT !.decl = 0, !.alt = IF @ = "cipher" THEN "-" ELSE @]
SpendsOn(f) == f \in {1, 3}
OutputsOn(f) == f \in {2, 3}
True(c) == /\ \A i \in 1..Len(c.ss) : LET x == notes[c.ss[i]] IN x.v # 0 => (SpendsOn(c.flags) /\ c.root >= x.born)
           /\ \A i \in 1..Len(c.os) : c.os[i].v # 0 => OutputsOn(c.flags)

ProofOk(b) == b.proof = Pub(b.c) /\ True(b.c)
SigsOk(b)  == \A i \in 1..Len(b.c.ss) : b.sigs[i] = [by |-> notes[b.c.ss[i]].owner, over |-> b.c]
BindOk(b)  == b.bind = b.c /\ b.c.decl = Net(b.c)
\* (The dummy spends' signatures, made when the bundle is prepared.)
DummiesOk(b) == b.over = b.c
Valid(b) == ProofOk(b) /\ SigsOk(b) /\ BindOk(b) /\ DummiesOk(b)
Fresh(b) == /\ b.c.id \notin inchain
            /\ \A i \in 1..Len(b.c.ss) : b.c.ss[i] \notin spent
            /\ \A i, j \in 1..Len(b.c.ss) : i # j => b.c.ss[i] # b.c.ss[j]
Accepts(b) == Valid(b) /\ b.c.root \in 0..height /\ Fresh(b)

---------------------------------------------------------------------------
(* Making a bundle.  Cheats are made from the start, with everything else  *)
(* done consistently.                                                      *)
Cheats == {"-", "inflate", "noflags", "root", "thief", "rehash"}
\* root: the anchor claimed; who: the one who signs.
Made(id, who, kind, ss, os, root, cheat) ==
  LET f == IF kind = "cb" THEN 2 ELSE 3
      c0 == [id |-> id, ss |-> ss, os |-> os, root |-> root, decl |-> 0, flags |-> f, alt |-> "-"]
      c == [c0 EXCEPT !.decl = Net(c0) + (IF cheat = "inflate" THEN 1 ELSE 0), !.flags = IF cheat = "noflags" THEN 0 ELSE f,
                      !.root = IF cheat = "root" THEN 0 ELSE root]
      other == [c EXCEPT !.alt = "other"]
      over == IF cheat = "rehash" THEN other ELSE c
  IN [c |-> c, proof |-> Pub(c), over |-> over, bind |-> over, kind |-> kind,
      sigs |-> [i \in 1..Len(ss) |-> [by |-> IF cheat = "thief" THEN who ELSE notes[ss[i]].owner, over |-> over]]]
CanMake(who, kind, ss, os, root, cheat) ==
  /\ kind = "cb" => (ss = <<>> /\ os # <<>> /\ cheat \in {"-", "rehash"})
  /\ kind = "tx" => ss # <<>>
  /\ root \in 0..height
  /\ \A i \in 1..Len(ss) : notes[ss[i]].born <= root /\ (notes[ss[i]].owner # who <=> cheat = "thief")
Make(who, kind, ss, os, root, cheat) ==
  /\ CanMake(who, kind, ss, os, root, cheat)
  /\ made' = Append(made, Made(Len(made) + 1, who, kind, ss, os, root, cheat))
  /\ UNCHANGED <<notes, spent, pool, height, inchain, log>>

(* Submitting one, as made or with something replaced on the way.          *)
Tampers == {"-", "decl+", "decl-", "flags", "root", "fakeroot", "outs", "cipher", "cv", "nf", "order", "drop", "again", "sig", "bindsig", "proof"}
Tampered(b, x) ==
  CASE x = "-" -> b
    [] x = "decl+" -> [b EXCEPT !.c.decl = @ + 1]
    [] x = "decl-" -> [b EXCEPT !.c.decl = @ - 1]
    [] x = "flags" -> [b EXCEPT !.c.flags = 3 - @]
    [] x = "root" -> [b EXCEPT !.c.root = IF @ = 0 THEN 1 ELSE 0]
    [] x = "fakeroot" -> [b EXCEPT !.c.root = -1]
    [] x = "sig" -> [b EXCEPT !.over.alt = "noise"]
    [] x = "bindsig" -> [b EXCEPT !.bind.alt = "noise"]
    [] x = "proof" -> [b EXCEPT !.proof.alt = "noise"]
    [] OTHER -> [b EXCEPT !.c.alt = x]       \* outputs, ciphertexts, value commitment, nullifier, order or number of actions
Born(b) == [i \in 1..Len(b.c.os) |-> [owner |-> b.c.os[i].to, scope |-> b.c.os[i].scope, v |-> b.c.os[i].v, born |-> height + 1]]
Submit(i, x, ok) ==
  LET b == Tampered(made[i], x) IN
  /\ ok = Accepts(b)
  /\ IF ok
     THEN /\ notes' = notes \o Born(b) /\ spent' = spent \cup {b.c.ss[k] : k \in 1..Len(b.c.ss)}
          /\ pool' = pool - b.c.decl /\ height' = height + 1 /\ inchain' = inchain \cup {b.c.id}
          /\ log' = log \o [k \in 1..Len(b.c.ss) |-> [note |-> b.c.ss[k], by |-> b.sigs[k].by]]
     ELSE UNCHANGED <<notes, spent, pool, height, inchain, log>>
  /\ UNCHANGED made

LInit == notes = <<>> /\ spent = {} /\ pool = 0 /\ height = 0 /\ made = <<>> /\ inchain = {} /\ log = <<>>

---------------------------------------------------------------------------
(* What a wallet knows: the unspent notes of its party, and their sum.     *)
Wallet(p) == {i \in 1..Len(notes) : notes[i].owner = p /\ i \notin spent}
RECURSIVE SumOf(_)
SumOf(is) == IF is = {} THEN 0 ELSE LET i == CHOOSE x \in is : TRUE IN notes[i].v + SumOf(is \ {i})

\* C22.
Conserved == pool = SumOf({i \in 1..Len(notes) : i \notin spent})
SpentOnce == \A i, j \in 1..Len(log) : i # j => log[i].note # log[j].note
ByOwner == \A i \in 1..Len(log) : log[i].by = notes[log[i].note].owner
AllSpends == spent = {log[i].note : i \in 1..Len(log)}
=============================================================================
