------------------------------ MODULE WireGen ------------------------------
EXTENDS Wire, Json, CSV, IOUtils
CONSTANTS Bases, Depth, Plain2, AllDepth, Many
VARIABLES hist, done, mode
gvars == <<base, acts, top, hist, done, mode>>
View == <<base, acts, top, done, mode>>

Init == /\ \E b \in Bases : Begin(b) /\ hist = << [op |-> "start", base |-> b] >>
        /\ done = FALSE /\ mode \in {"each", "all"}
E == Len(hist) - 1
Go(c) == ~done /\ hist' = Append(hist, c) /\ done' = FALSE /\ mode' = mode
TopNames == {"flags", "bal", "anchor", "proof", "bsig", "hash"}

\* Anything once, then the plain values (and all of them where Plain2 is FALSE).
Plain(x) == x \in {"zero", "id", "neg", "tag", "0", "none", "min"}
Depths == E < Depth
NPart == \E i \in 1..2, f \in Parts : \E x \in Values(f) : (E >= 1 /\ Plain2 => Plain(x)) /\ SetPart(i, f, x) /\ Go([op |-> "part", i |-> i, f |-> f, x |-> x])
NTop == \E g \in TopNames : \E x \in TopValues(g) : (E >= 1 /\ Plain2 => Plain(x)) /\ SetTop(g, x) /\ Go([op |-> "top", g |-> g, x |-> x])
NNull == \E i \in 1..N : Nullify(i) /\ Go([op |-> "null", i |-> i])
NSwap == Swap /\ Go([op |-> "swap"])
NDrop == \E i \in 1..N : Drop(i) /\ Go([op |-> "drop", i |-> i])
NAgain == \E i \in 1..N : \E k \in (IF E = 0 THEN Many ELSE {1}) : Again(i, k) /\ Go([op |-> "again", i |-> i, k |-> k])
NAddNull == AddNull /\ Go([op |-> "addnull"])
NEach == mode = "each" /\ Depths /\ N <= 4 /\ (NPart \/ NTop \/ NNull \/ NSwap \/ NDrop \/ NAgain \/ NAddNull)

\* Or the plainest value in many places at once.
Plainest(f) == IF f \in {"rk", "cv"} THEN "id" ELSE "zero"
TopPlainest(g) == CASE g = "flags" -> "0" [] g = "proof" -> "none" [] g = "hash" -> "other" [] OTHER -> "zero"
NAll == mode = "all" /\ E < AllDepth /\
        (\/ \E f \in Parts : SetAll(f, Plainest(f)) /\ Go([op |-> "all", f |-> f, x |-> Plainest(f)])
         \/ \E g \in TopNames : SetTop(g, TopPlainest(g)) /\ Go([op |-> "top", g |-> g, x |-> TopPlainest(g)])
         \/ SetAll("cv", "neg") /\ Go([op |-> "all", f |-> "cv", x |-> "neg"]))
Ask == /\ ~done /\ done' = TRUE /\ hist' = Append(hist, [op |-> "consume"]) /\ UNCHANGED <<base, acts, top, mode>>
Next == NEach \/ NAll \/ Ask
Spec == Init /\ [][Next]_gvars
Emit == done' => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

\* Nobody's bundle but the base is valid, whatever it is made of ...
OnlyTheBase == Valid => SameEffects \/ (ProofOk /\ \A i \in 1..N : acts[i].rk = BaseActs(base)[i].rk /\ acts[i].cv = BaseActs(base)[i].cv)
\* ... and with other signatures it is not.
OnlySigned == Valid /\ SameEffects => SameAuths \/ top.hash # "own"
ReadImplies == Reads \subseteq CompactReads /\ Recovers \subseteq Reads
=============================================================================
