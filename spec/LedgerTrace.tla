---------------------------- MODULE LedgerTrace ----------------------------
(* Judges recorded histories: the node's verdict, the pool and what every   *)
(* wallet sees after each submission.                                       *)
EXTENDS Ledger, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Everyone == {"A", "B", "C"}
VARIABLES r, l
tvars == <<lvars, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ LInit
Step(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
RECURSIVE Sorted(_)
Sorted(is) == IF is = {} THEN <<>> ELSE LET m == CHOOSE x \in is : \A y \in is : x <= y IN <<m>> \o Sorted(is \ {m})
Seen(p, w) == LET ids == Sorted({i \in 1..Len(notes') : notes'[i].owner = p /\ i \notin spent'}) IN
  /\ w.ids = ids
  /\ w.vs = [k \in 1..Len(ids) |-> notes'[ids[k]].v]
  /\ w.scopes = [k \in 1..Len(ids) |-> notes'[ids[k]].scope]
  /\ w.balance = Sum([k \in 1..Len(ids) |-> notes'[ids[k]].v])
T == \/ Step("make") /\ E.id = Len(made) + 1 /\ Make(E.who, E.kind, E.ss, E.os, E.root, E.cheat)
     \/ /\ Step("submit") /\ Submit(E.id, E.tamper, E.ok)
        /\ (E.ok => E.sent = made[E.id].c.os)
        /\ E.pool = pool'
        /\ \A p \in Everyone : Seen(p, E.wallets[p])
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
