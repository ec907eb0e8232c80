----------------------------- MODULE CommitGen -----------------------------
EXTENDS Commit, TLC, Json, CSV, IOUtils
CONSTANTS Ns, Starts, MaxActs, MaxOps
VARIABLES b, len, hist
gvars == <<b, len, hist>>
View == <<b, len>>
Start(n, v) == [op |-> "start", n |-> n, v |-> v, txid |-> Txid(NewBundle(n, v)), auth |-> Auth(NewBundle(n, v)), txid0 |-> TxidEmpty, auth0 |-> AuthEmpty]
Init == \E n \in Ns, v \in Starts : b = NewBundle(n, v) /\ len = 0 /\ hist = <<Start(n, v)>>
Go(c, x) == /\ len < MaxOps /\ b' = x /\ len' = len + 1
            /\ hist' = Append(hist, c @@ [txid |-> Txid(x), auth |-> Auth(x)])
N == Len(b.acts)
\* In a wide bundle, neighbours and the two ends.
Pair(i, j) == i < j /\ (N <= 8 \/ j = i + 1 \/ (i = 1 /\ j = N))
Next ==
  \/ \E i \in 1..N, f \in EffectFields \cup {"sig"} : Go([op |-> "alt", i |-> i, f |-> f], AltField(b, i, f))
  \/ \E i \in 1..N, f \in EffectFields \cup {"sig"}, v \in Extreme : Go([op |-> "setf", i |-> i, f |-> f, v |-> v], SetField(b, i, f, v))
  \/ \E i, j \in 1..N, f \in EffectFields \cup {"sig"} : Pair(i, j) /\ Go([op |-> "sharef", i |-> i, j |-> j, f |-> f], ShareField(b, i, j, f))
  \/ \E i, j \in 1..N, f \in EffectFields \cup {"sig"} : Pair(i, j) /\ Go([op |-> "swapf", i |-> i, j |-> j, f |-> f], SwapField(b, i, j, f))
  \/ \E i, j \in 1..N : Pair(i, j) /\ Go([op |-> "swap", i |-> i, j |-> j], SwapActs(b, i, j))
  \/ \E i \in 1..N : N > 1 /\ Go([op |-> "drop", i |-> i], DropAct(b, i))
  \/ \E i \in 1..N : N < MaxActs /\ Go([op |-> "copy", i |-> i], CopyAct(b, i))
  \/ \E f \in {"vb", "anchor", "bsig"} : Go([op |-> "top", f |-> f], AltTop(b, f))
  \/ \E f \in {"vb", "anchor", "bsig"}, v \in Extreme : Go([op |-> "setop", f |-> f, v |-> v], SetTop(b, f, v))
  \/ \E x \in 0..3 : x # b.flags /\ Go([op |-> "flags", x |-> x], SetFlags(b, x))
  \/ \E p \in ProofVersions : p # b.proof /\ Go([op |-> "proof", p |-> p], SetProof(b, p))
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* C07: the commitment distinguishes exactly the bundles that do different things.
\* (Each against each would be quadratic; steps and the unaltered bundles suffice for a
\* chain, and the next invariant compares with every unaltered bundle.)
TxidStep == [][(Txid(b') = Txid(b)) <=> (Effects(b') = Effects(b))]_gvars
TxidBase == \A n \in Ns, v \in Starts : (Txid(b) = Txid(NewBundle(n, v))) <=> (Effects(b) = Effects(NewBundle(n, v)))
TxidAbsent == Txid(b) # TxidEmpty
\* C08: likewise for the authorizing commitment; together they bind the whole bundle.
AuthStep == [][(Auth(b') = Auth(b)) <=> (Authorizing(b') = Authorizing(b))]_gvars
AuthBase == \A n \in Ns, v \in Starts : (Auth(b) = Auth(NewBundle(n, v))) <=> (Authorizing(b) = Authorizing(NewBundle(n, v)))
AuthAbsent == Auth(b) # AuthEmpty
Together == [][(Txid(b') = Txid(b) /\ Auth(b') = Auth(b)) <=> b' = b]_gvars
=============================================================================
