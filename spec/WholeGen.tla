------------------------------ MODULE WholeGen ------------------------------
(* Every scenario of the catalogue, proven before or after it is signed.    *)
EXTENDS Whole, TLC, Json, CSV, IOUtils
CONSTANTS Full

A(nid, owner, scope, v, path) == [nid |-> nid, owner |-> owner, scope |-> scope, key |-> owner, v |-> v, path |-> path]
O(to, scope, idx, v, memo, ovk) == [to |-> to, scope |-> scope, idx |-> idx, v |-> v, memo |-> memo, ovk |-> ovk]

\* Spends and outputs by kind.
X1 == A(1, "A", "ext", W(70000), "good")
X2 == A(2, "A", "int", W(5), "good")
X3 == A(3, "B", "ext", W(9), "good")
X4 == A(4, "B", "int", WMaxMoney, "good")
Z1 == A(5, "A", "ext", W0, "bad")
Z2 == A(6, "B", "int", W0, "bad")
Z3 == A(7, "C", "int", W0, "good")
H1 == A(8, "A", "int", WMaxI64, "good")
H2 == A(9, "B", "ext", WMaxU64, "good")
H3 == A(10, "C", "ext", W2p63, "good")
U1 == A(11, "C", "ext", W1, "good")
P1 == O("B", "ext", 0, W(400), "none", "A.ext")
P2 == O("A", "int", 7, W(1), "m1", "none")
P3 == O("C", "ext", 3, W0, "m2", "B.int")
Q1 == O("A", "ext", 1, WMaxI64, "none", "none")
Q2 == O("B", "int", 2, WMaxU64, "zero", "B.ext")
Q3 == O("C", "int", 2, W2p63, "none", "C.int")

\* Requests that a builder must refuse: whatever it does with them, what it accepts must work.
B1 == A(12, "A", "ext", W(8), "bad")
B2 == [A(13, "A", "int", W(6), "good") EXCEPT !.key = "B"]
B3 == A(14, "B", "ext", W1, "bad")
B4 == [A(15, "-", "ext", W(3), "good") EXCEPT !.key = "A"]

T(f, r) == [kind |-> "tx", flags |-> f, req |-> r]
Sc(ty, ss, os) == [ty |-> ty, ss |-> ss, os |-> os]
Quick == {
  Sc(T(3, TRUE), <<>>, <<>>), Sc(T(0, TRUE), <<>>, <<>>), Sc(T(1, TRUE), <<>>, <<>>), Sc(T(2, TRUE), <<>>, <<>>),
  Sc(T(3, FALSE), <<>>, <<>>), Sc(CoinbaseType, <<>>, <<>>),
  Sc(T(3, FALSE), <<X1, X2>>, <<P1>>), Sc(T(3, FALSE), <<X3, Z1>>, <<P3, P2>>), Sc(T(3, FALSE), <<X4, X1, Z2>>, <<P1, P2>>),
  Sc(T(3, FALSE), <<U1>>, <<P1, P3, P2>>), Sc(T(1, FALSE), <<X2>>, <<>>), Sc(T(1, FALSE), <<Z1, Z2>>, <<>>), Sc(T(1, TRUE), <<H1>>, <<>>),
  Sc(T(2, FALSE), <<>>, <<P1>>), Sc(T(2, TRUE), <<>>, <<P3, Q1>>), Sc(T(3, FALSE), <<Z3>>, <<>>), Sc(T(3, FALSE), <<>>, <<P3>>),
  Sc(T(3, FALSE), <<H2>>, <<Q2>>), Sc(T(3, TRUE), <<H3, X2>>, <<Q3, P1>>), Sc(T(3, FALSE), <<H2, Z3>>, <<Q3>>),
  Sc(CoinbaseType, <<>>, <<P1>>), Sc(CoinbaseType, <<>>, <<P3, P2>>), Sc(CoinbaseType, <<>>, <<Q1>>),
  Sc(T(3, FALSE), <<X1, X1>>, <<P1>>),
  Sc(T(3, FALSE), <<B1, X1>>, <<P1>>), Sc(T(3, FALSE), <<X2, B2, B3>>, <<P1>>), Sc(T(3, TRUE), <<B4>>, <<P2>>), Sc(T(0, TRUE), <<X1>>, <<P1>>),
  Sc(T(1, TRUE), <<X1>>, <<P1>>), Sc(T(2, FALSE), <<X1>>, <<P1>>), Sc(CoinbaseType, <<X2>>, <<P1>>),
  Sc(T(3, FALSE), <<H1, H3>>, <<>>), Sc(T(3, FALSE), <<U1>>, <<Q1, Q2>>), Sc(T(2, FALSE), <<>>, <<Q3>>), Sc(T(2, FALSE), <<>>, <<Q3, P2>>) }

SeqsUpTo(set, k) == UNION {[1..j -> set] : j \in 0..k}
Wide3 == {Sc(ty, ss, os) : ty \in {T(3, FALSE)}, ss \in SeqsUpTo({X1, X4, Z2, H1}, 2), os \in SeqsUpTo({P1, P3, Q1}, 2)}
  \cup {Sc(ty, <<>>, os) : ty \in {T(2, FALSE), CoinbaseType}, os \in SeqsUpTo({P1, P3, Q1}, 2)}
  \cup {Sc(T(1, TRUE), ss, <<>>) : ss \in SeqsUpTo({X1, X3, Z2, H1}, 2)}
Scenarios == IF Full THEN Quick \cup {sc \in Wide3 : \A i, j \in 1..Len(sc.ss) : i < j => sc.ss[i].nid < sc.ss[j].nid} ELSE Quick

VARIABLES sc, order, hist, nth      \* nth: requests made so far
gvars == <<allvars, sc, order, hist, nth>>

\* Both orders of proving and signing, spread over the catalogue.
OrderOf(x) == IF (Len(x.ss) + 2 * Len(x.os)) % 3 = 1 THEN "sign first" ELSE "prove first"
Init == \E x \in Scenarios : WNew(x.ty) /\ sc = x /\ order = OrderOf(x) /\ nth = 0 /\ hist = <<[op |-> "new", type |-> x.ty]>>
Do(c) == hist' = Append(hist, c) /\ UNCHANGED <<sc, order, nth>>
Request(c) == hist' = Append(hist, c) /\ nth' = nth + 1 /\ UNCHANGED <<sc, order>>
Ident(k) == [i \in 1..k |-> i]
All == Len(sc.ss) + Len(sc.os)
\* If an amount is out of range the builder says so; the rest is asked for nevertheless.
Rest == << [op |-> "prove"], [op |-> "prepare"], [op |-> "sign", key |-> "A"], [op |-> "sign", key |-> "B"], [op |-> "sign", key |-> "C"], [op |-> "finalize"], [op |-> "check"] >>
Next ==
  \/ nth < Len(sc.ss) /\ LET q == sc.ss[nth + 1] IN \E res \in {CHOOSE x \in SpendResults(t, q) : TRUE} : AddSpend(q, res) /\ UNCHANGED wvars /\ Request([op |-> "add_spend", req |-> q])
  \/ nth >= Len(sc.ss) /\ nth < All /\ LET q == sc.os[nth + 1 - Len(sc.ss)] IN \E res \in OutputResults(t) : AddOutput(q, res) /\ UNCHANGED wvars /\ Request([op |-> "add_output", req |-> q])
  \/ /\ nth = All
     /\ \/ BuildNone("i64") /\ hist' = Append(hist, [op |-> "build"])
        \/ BuildOverflow("i64") /\ hist' = Append(hist, [op |-> "build"]) \o Rest
        \/ BuildBundle("i64", Ident(Len(spends)), Ident(Len(outputs))) /\ hist' = Append(hist, [op |-> "build"])
     /\ UNCHANGED <<wvars, sc, order, nth>>
  \/ Prove /\ (order = "sign first" => hash # "-" /\ Owners \subseteq signed) /\ Do([op |-> "prove"])
  \/ Prepare("h1") /\ (order = "prove first" => proved) /\ Do([op |-> "prepare"])
  \/ \E k \in Owners \ signed : (\A j \in Owners \ signed : k = j \/ k \in {"B"} \/ j = "C" \/ (k = "A" /\ "B" \notin Owners \ signed)) /\ Sign(k) /\ Do([op |-> "sign", key |-> k])
  \/ Finalize /\ Do([op |-> "finalize"])
  \/ ~checked /\ Check(AllYes(Len(acts))) /\ Do([op |-> "check"])
Spec == Init /\ [][Next]_gvars
Emit == (phase' \in {"none", "failed"} \/ checked') => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
\* The only place to stop is the end.
Stops == ENABLED Next \/ phase \in {"none", "failed"} \/ checked
=============================================================================
