------------------------------ MODULE FreshGen ------------------------------
EXTENDS Fresh, TLC, Json, CSV, IOUtils
CONSTANTS Builds,   \* bundles explored per layout
          Times,    \* how many real builds per arrangement
          Large     \* TRUE: also the larger layouts
VARIABLES base, count
gvars == <<fvars, base, count>>
A(nid, owner, scope, v, path) == [nid |-> nid, owner |-> owner, scope |-> scope, key |-> owner, v |-> v, path |-> path]
O(to, scope, idx, v, memo, ovk) == [to |-> to, scope |-> scope, idx |-> idx, v |-> v, memo |-> memo, ovk |-> ovk]
SA == A(1, "A", "ext", W(1000), "good")
SB == A(2, "A", "ext", W(1000), "good")
SC == A(3, "B", "int", W0, "bad")
SD == A(4, "C", "int", WMaxMoney, "good")
OA == O("A", "ext", 0, W(1000), "none", "A.ext")
OB == O("A", "int", 5, W(999), "m1", "none")
OC == O("B", "ext", 0, W0, "none", "B.int")
OD == O("C", "ext", 9, W(7), "m2", "A.int")
T(f, r) == [kind |-> "tx", flags |-> f, req |-> r]
Small == { <<T(3, FALSE), <<SA>>, <<OA, OB>>>>, <<T(3, FALSE), <<SA, SC>>, <<OA>>>>, <<T(3, TRUE), <<SC>>, <<>>>>, <<T(2, FALSE), <<>>, <<OB>>>>,
           <<T(3, TRUE), <<>>, <<>>>>, <<T(0, TRUE), <<>>, <<>>>>, <<T(1, FALSE), <<SB, SA>>, <<>>>>, <<CoinbaseType, <<>>, <<OA>>>>, <<CoinbaseType, <<>>, <<OC, OA>>>>,
           <<CoinbaseType, <<>>, <<OA, OA, OB>>>>, <<T(3, FALSE), <<SB, SA>>, <<OB, OA, OC>>>>, <<T(3, FALSE), <<SA, SB, SC>>, <<OA>>>>,
           <<T(3, FALSE), <<SD, SC, SA>>, <<OD, OC, OA>>>> }
Big == { <<T(3, FALSE), <<SA, SB, SC>>, <<OA, OB, OC, OD>>>>, <<T(3, FALSE), <<SD, SC, SB, SA>>, <<OD, OA>>>>, <<T(2, FALSE), <<>>, <<OA, OB, OC, OD>>>>, <<CoinbaseType, <<>>, <<OA, OB, OC, OD>>>>,
         <<T(3, FALSE), <<SA, SB, SC, SD>>, <<OA, OB, OC, OD>>>> }
Sp(i) == A(i, CASE i % 3 = 0 -> "A" [] i % 3 = 1 -> "B" [] OTHER -> "C", IF i % 2 = 0 THEN "ext" ELSE "int", W(1000 + i), "good")
Ou(j) == O(CASE j % 3 = 0 -> "A" [] j % 3 = 1 -> "B" [] OTHER -> "C", IF j % 2 = 0 THEN "ext" ELSE "int", j, W(j), "none", "none")
Sps(n) == [i \in 1..n |-> Sp(i)]
Ous(n) == [j \in 1..n |-> Ou(j)]
Wide_ == {<<T(3, FALSE), Sps(10), Ous(10)>>, <<T(3, FALSE), Sps(2), Ous(17)>>, <<T(3, FALSE), Sps(13), Ous(2)>>, <<CoinbaseType, <<>>, Ous(11)>>}
Layouts == Wide_ \cup Small \cup (IF Large THEN Big ELSE {})
Init == \E x \in Layouts : FNew(x[1], x[2], x[3], 0) /\ base = 0 /\ count = 0
Next == count < Builds /\ Narrow /\ Cardinality(Arrangements) <= 40 /\ \E a \in Arrangements : FBuild(a[1], a[2]) /\ count' = count + 1 /\ base' = next
Spec == Init /\ [][Next]_gvars
View == <<bvars, next, count, base>>
Emit == CSVWrite("%1$s", <<ToJson(<<[op |-> "layout", type |-> t, spends |-> spends, outputs |-> outputs, times |-> IF Narrow THEN Times * Cardinality(Arrangements) + 10 ELSE Times * N]>>)>>, IOEnv.OUT)
EmitInit == (count = 0 /\ base = 0) => Emit
\* C24 on the design: no name is ever shown twice, and all names are new.
AllNew == acts # <<>> => Names(acts, base) = base + 1 .. next
\* Every bundle of a layout shows the same number of names, whatever its arrangement.
SameShape == acts # <<>> => next - base = 6 * N + (N - Len(spends)) + Len(outputs)
=============================================================================
