------------------------------- MODULE Zip32 -------------------------------
(***************************************************************************)
(* Hierarchical derivation of account keys.  A wallet starts from a seed   *)
(* and walks down hardened indices; an extended key is the 64-byte string  *)
(* sk || chain code.  The account key is at purpose 32, coin, account.     *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets

\* The walk, one index at a time (indices are 4 little-endian bytes, not hardened).
Purpose == <<32, 0, 0, 0>>
HardenT(i4) == IF "lit" = i4.f THEN Harden(i4.b) ELSE Fn("harden", <<i4>>)
Down(x, i4) == Child(x, HardenT(i4))
KeyOf(x) == Slice(x, 0, 32)
RECURSIVE Walk(_, _)
Walk(x, path) == IF path = <<>> THEN x ELSE Walk(Down(x, Head(path)), Tail(path))

\* A request for an account key: refused when the coin type does not fit in 31 bits.
TooLarge(i4) == IF i4.f = "lit" THEN i4.b[4] >= 128 ELSE i4.s \in {"coin.high"}
Answer(q) == IF TooLarge(q.coin) THEN [f |-> "refused"]
             ELSE KeyOf(Walk(Master(q.seed), <<L(Purpose), q.coin, q.acct>>))
=============================================================================
