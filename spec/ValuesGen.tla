----------------------------- MODULE ValuesGen -----------------------------
EXTENDS Values, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, ListLen
VARIABLES obj, len, hist
gvars == <<obj, len, hist>>
View == <<obj, len>>

Raw == {W0, W1, W(1000), WMaxI64, W2p63, WSub(WMaxU64, W1), WMaxU64}
Listed == {WMaxU64, WMinusMaxU64, W1, WNeg(W1), WMaxI64, WMinI64, W0}
Traps == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 0>>, <<2, -1>>}
CvVals == {W0, W1, WNeg(W1), W2p63, WNeg(W2p63), WMaxU64, WMinusMaxU64}
Parts == {Cm2(v, t[1], t[2]) : v \in {W1, WNeg(W1), WMaxU64, WMinusMaxU64}, t \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>}}

Init == obj = [k |-> "none"] /\ len = 0 /\ hist = <<>>
Go(o, c) == len < MaxLen /\ obj' = o /\ len' = len + 1 /\ hist' = Append(hist, c)
Is(k) == obj.k = k
NDiff == Is("none") /\ \E x, y \in Raw : Go(Diff(x, y), [op |-> "diff", x |-> x, y |-> y])
NPlus == Is("sum") /\ \E x, y \in Raw : Go(Plus(obj, x, y), [op |-> "plus", x |-> x, y |-> y])
Lists(st, n) == UNION {[1..k -> st] : k \in 0..n}
NTotal == Is("none") /\ \E s \in Lists(Listed, ListLen) : \E o \in Total(s) : Go(o, [op |-> "total", list |-> s])
NCommit == Is("none") /\ \E v \in CvVals, t \in Traps :
    LET o == Commit(Sum(v), t[1], t[2]) IN Go(o, [op |-> "commit", v |-> v, a |-> t[1], b |-> t[2], want |-> Repr(CvTerm(o))])
NCv == Is("cv") /\ \E p \in Parts :
   \/ Go(CvAdd(obj, p), [op |-> "cvadd", v |-> p.v, a |-> p.a, b |-> p.b, want |-> Repr(CvTerm(CvAdd(obj, p)))])
   \/ Go(CvSub(obj, p), [op |-> "cvsub", v |-> p.v, a |-> p.a, b |-> p.b, want |-> Repr(CvTerm(CvSub(obj, p)))])
NCvSum == Is("none") /\ \E s \in Lists(Parts, 2) : Go(CvSum(s), [op |-> "cvsum", list |-> s, want |-> Repr(CvTerm(CvSum(s)))])
\* Long sums: the first parts differ, and each length is a sum of its own.
LongLens == {8, 9, 16, 17, 31, 33, 64, 65, 100, 257}
Long(n) == [i \in 1..n |-> Cm2(IF i % 3 = 0 THEN WNeg(W(i)) ELSE W(i * 1000), i % 2, (i % 5) - 2)]
NCvLong == Is("none") /\ \E n \in LongLens : LET s == Long(n) IN Go(CvSum(s), [op |-> "cvsum", list |-> s, want |-> Repr(CvTerm(CvSum(s)))])
NTotalLong == Is("none") /\ \E n \in LongLens, x \in {W1, WMaxI64, WMaxU64} : \E alt \in BOOLEAN :
   LET s == [i \in 1..n |-> IF alt /\ i % 2 = 0 THEN WNeg(x) ELSE x] IN \E o \in Total(s) : Go(o, [op |-> "total", list |-> s])
Next == NCvLong \/ NTotalLong \/ NDiff \/ NPlus \/ NTotal \/ NCommit \/ NCv \/ NCvSum
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

InRange == Is("sum") => FitsSum(obj.v)
\* A commitment and its opposite sum to the commitment of nothing.
Opposite == Is("cv") => CvAdd(obj, Cm2(WNeg(obj.v), -obj.a, -obj.b)) = CvSum(<<>>)
\* Adding and subtracting are inverse.
Inverse == Is("cv") => \A p \in Parts : CvSub(CvAdd(obj, p), p) = obj
Exact == [][(Is("sum") /\ obj'.k = "overflow") => \E x, y \in Raw : ~FitsSum(WAdd(obj.v, WSub(x, y)))]_gvars
=============================================================================
