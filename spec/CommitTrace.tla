---------------------------- MODULE CommitTrace ----------------------------
(* Judges the commitments real bundles showed while being altered.         *)
EXTENDS Commit, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES b, past, r, l
tvars == <<b, past, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ b = NewBundle(1, "0") /\ past = <<>>
Next1 ==
  CASE E.op = "start" -> NewBundle(E.n, E.v)
    [] E.op = "alt" -> AltField(b, E.i, E.f)
    [] E.op = "setf" -> SetField(b, E.i, E.f, E.v)
    [] E.op = "sharef" -> ShareField(b, E.i, E.j, E.f)
    [] E.op = "setop" -> SetTop(b, E.f, E.v)
    [] E.op = "swapf" -> SwapField(b, E.i, E.j, E.f)
    [] E.op = "swap" -> SwapActs(b, E.i, E.j)
    [] E.op = "drop" -> DropAct(b, E.i)
    [] E.op = "copy" -> CopyAct(b, E.i)
    [] E.op = "top" -> AltTop(b, E.f)
    [] E.op = "flags" -> SetFlags(b, E.x)
    [] E.op = "proof" -> SetProof(b, E.p)
\* Equal effects have equal commitments and conversely, over the whole run.
TxidOK(x) == /\ E.txid = E.want_txid /\ E.txid0 = E.want_txid0 /\ E.txid # E.txid0
             /\ E.txid_bare = E.txid
             /\ \A k \in 1..Len(past) : (past[k].txid = E.txid) <=> (Effects(past[k].b) = Effects(x))
AuthOK(x) == /\ E.auth = E.want_auth /\ E.auth0 = E.want_auth0 /\ E.auth # E.auth0
             /\ \A k \in 1..Len(past) : Len(past[k].b.acts) = Len(x.acts) =>
                   ((past[k].auth = E.auth) <=> (Authorizing(past[k].b) = Authorizing(x)))
Show == /\ l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
        /\ b' = Next1
        /\ IF Focus = "C08" THEN AuthOK(b') ELSE TxidOK(b')
        /\ past' = Append(past, [b |-> b', txid |-> E.txid, auth |-> E.auth])
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == Show \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
