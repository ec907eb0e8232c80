---------------------------- MODULE LedgerScript ----------------------------
(* Histories written out: long chains of payments, and every way to cheat.  *)
EXTENDS Ledger, TLC, Json, CSV, IOUtils
VARIABLES script, k
gvars == <<lvars, script, k>>
O(p, s, v) == [to |-> p, scope |-> s, v |-> v]
Mk(id, who, kind, ss, os, root, cheat) == [op |-> "make", id |-> id, who |-> who, kind |-> kind, ss |-> ss, os |-> os, root |-> root, cheat |-> cheat]
Sb(id, x) == [op |-> "submit", id |-> id, tamper |-> x]
\* Payments through several hands, with change, zero-valued notes and old anchors.
Payments == <<
  Mk(1, "A", "cb", <<>>, <<O("A", "ext", 5), O("A", "int", 7)>>, 0, "-"), Sb(1, "cipher"), Sb(1, "-"),
  Mk(2, "A", "tx", <<1, 2>>, <<O("B", "ext", 4), O("A", "int", 7), O("C", "int", 0)>>, 1, "-"), Sb(2, "sig"), Sb(2, "decl-"), Sb(2, "-"),
  Mk(3, "B", "tx", <<3>>, <<O("C", "ext", 3), O("B", "int", 1)>>, 2, "-"), Mk(4, "A", "tx", <<4>>, <<O("B", "int", 2)>>, 2, "-"), Sb(3, "outs"), Sb(3, "-"), Sb(3, "-"),
  Sb(4, "root"), Sb(4, "nf"), Sb(4, "-"), Sb(2, "-"), Sb(1, "-"),
  Mk(5, "C", "tx", <<6, 5>>, <<>>, 3, "-"), Mk(6, "B", "tx", <<7, 8>>, <<O("A", "ext", 900)>>, 4, "-"), Sb(6, "-"), Sb(5, "-"),
  Mk(7, "B", "tx", <<7>>, <<O("A", "int", 1)>>, 5, "-"), Sb(7, "-"), Sb(5, "-") >>
\* Every cheat, each followed by the honest spend of the same note.
Cheating == <<
  Mk(1, "B", "cb", <<>>, <<O("A", "ext", 6), O("B", "int", 8)>>, 0, "-"), Sb(1, "-"),
  Mk(2, "A", "tx", <<2>>, <<O("A", "ext", 8)>>, 1, "thief"), Sb(2, "-"),
  Mk(3, "A", "tx", <<1, 1>>, <<O("A", "int", 12)>>, 1, "-"), Sb(3, "-"),
  Mk(4, "A", "tx", <<1>>, <<O("A", "ext", 6)>>, 1, "inflate"), Sb(4, "-"), Sb(4, "decl-"),
  Mk(5, "A", "tx", <<1>>, <<O("C", "ext", 6)>>, 1, "noflags"), Sb(5, "-"), Sb(5, "flags"),
  Mk(6, "A", "tx", <<1>>, <<>>, 1, "root"), Sb(6, "-"), Sb(6, "root"),
  Mk(7, "A", "tx", <<1>>, <<O("C", "int", 5)>>, 1, "rehash"), Sb(7, "-"),
  Mk(8, "A", "tx", <<1>>, <<O("C", "int", 5), O("A", "int", 1)>>, 1, "-"), Sb(8, "-"), Sb(3, "-"), Sb(8, "-") >>
\* Every tampering of one payment, which then goes through untouched.
TamperSeq == <<"decl+", "decl-", "flags", "root", "fakeroot", "outs", "cipher", "cv", "nf", "order", "drop", "again", "sig", "bindsig", "proof">>
Tampering == << Mk(1, "C", "cb", <<>>, <<O("C", "int", 3), O("C", "ext", 9)>>, 0, "-"), Sb(1, "-"), Mk(2, "C", "tx", <<1, 2>>, <<O("A", "int", 11)>>, 1, "-"), Mk(3, "C", "tx", <<2>>, <<O("B", "ext", 9)>>, 1, "-") >>
   \o [i \in 1..2 * Len(TamperSeq) |-> Sb(2, TamperSeq[((i - 1) % Len(TamperSeq)) + 1])] \o << Sb(2, "-"), Sb(3, "-"), Sb(2, "-") >>
Scripts == {Payments, Cheating, Tampering}
Init == LInit /\ script \in Scripts /\ k = 1
Cmd == script[k]
Next == /\ k <= Len(script) /\ k' = k + 1 /\ UNCHANGED script
        /\ \/ Cmd.op = "make" /\ Assert(CanMake(Cmd.who, Cmd.kind, Cmd.ss, Cmd.os, Cmd.root, Cmd.cheat), Cmd) /\ Make(Cmd.who, Cmd.kind, Cmd.ss, Cmd.os, Cmd.root, Cmd.cheat)
           \/ Cmd.op = "submit" /\ Submit(Cmd.id, Cmd.tamper, Accepts(Tampered(made[Cmd.id], Cmd.tamper)))
Spec == Init /\ [][Next]_gvars
Emit == k' = Len(script) + 1 => CSVWrite("%1$s", <<ToJson(script)>>, IOEnv.OUT)
=============================================================================
