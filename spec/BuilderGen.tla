----------------------------- MODULE BuilderGen -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Builder over a finite catalogue of requests;  *)
(* checks the invariants and writes one command sequence per transition.   *)
(***************************************************************************)
EXTENDS Builder, TLC, Json, CSV, IOUtils

CONSTANTS MaxOps,      \* number of add requests before building
          Types,       \* bundle types explored
          SCat, OCat,  \* request catalogues (sequences)
          VTypes,      \* amount types used when building
          Arrange,     \* TRUE: explore every arrangement
          DoBuild      \* TRUE: build (else stop after the adds)

VARIABLE hist
gvars == <<t, spends, outputs, phase, acts, hist>>
View == <<t, spends, outputs, phase, acts>>

Init == \E ty \in Types : New(ty) /\ hist = << [op |-> "new", type |-> ty] >>

Step(c) == hist' = Append(hist, c)
Adds == Len(spends) + Len(outputs)

NextAddSpend == \E i \in 1..Len(SCat) : \E res \in SpendResults(t, SCat[i]) :
   Adds < MaxOps /\ AddSpend(SCat[i], res) /\ Step([op |-> "add_spend", req |-> SCat[i]])
NextAddOutput == \E i \in 1..Len(OCat) : \E res \in OutputResults(t) :
   Adds < MaxOps /\ AddOutput(OCat[i], res) /\ Step([op |-> "add_output", req |-> OCat[i]])
NextBuild == \E vt \in VTypes :
   /\ DoBuild
   /\ \/ BuildOverflow(vt)
      \/ BuildNone(vt)
      \/ LET n == NumActions(t, Len(spends), Len(outputs)) IN
         IF Arrange
         THEN \E fs \in Injections(Len(spends), n), fo \in Injections(Len(outputs), n) : BuildBundle(vt, fs, fo)
         ELSE BuildBundle(vt, [i \in 1..Len(spends) |-> i], [i \in 1..Len(outputs) |-> i])
   /\ Step([op |-> "build", vt |-> vt])

Next == NextAddSpend \/ NextAddOutput \/ NextBuild
Spec == Init /\ [][Next]_gvars

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
(* Catalogues.                                                             *)
S(nid, owner, scope, key, v, path) ==
  [nid |-> nid, owner |-> owner, scope |-> scope, key |-> key, v |-> v, path |-> path]
O(to, scope, idx, v, memo, ovk) ==
  [to |-> to, scope |-> scope, idx |-> idx, v |-> v, memo |-> memo, ovk |-> ovk]

\* C01: every combination of reasons, both scopes, boundary values.
AdmSpends == <<
  S(1, "A", "ext", "A", W(5), "good"),
  S(2, "A", "int", "A", WMaxI64, "good"),
  S(3, "A", "ext", "A", W0, "bad"),
  S(4, "A", "int", "A", W0, "bad"),
  S(5, "A", "ext", "A", W(1), "bad"),
  S(6, "A", "int", "A", W(7), "bad"),
  S(7, "A", "ext", "B", W(9), "good"),
  S(8, "A", "int", "B", W(11), "good"),
  S(9, "B", "ext", "B", WMaxU64, "good"),
  S(10, "B", "int", "B", W2p63, "bad"),
  S(11, "A", "ext", "B", W0, "bad"),
  S(12, "-", "ext", "A", W(3), "good"),
  S(13, "-", "ext", "B", W0, "good"),
  S(14, "B", "ext", "A", W(13), "bad") >>
AdmOuts == <<
  O("A", "ext", 0, W(1), "none", "none"),
  O("B", "int", 3, WMaxU64, "m1", "A.ext") >>

\* C02: contents.  Values are small, recipients and memos vary.
CntSpends == <<
  S(1, "A", "ext", "A", W(5), "good"),
  S(2, "A", "int", "A", W(6), "good"),
  S(3, "B", "ext", "B", W0, "bad") >>
CntOuts == <<
  O("A", "ext", 0, W(5), "none", "none"),
  O("A", "int", 2, W0, "m1", "A.int"),
  O("B", "ext", 1, W(9), "m2", "A.ext") >>

\* C03: boundary values.
ValSpends == <<
  S(1, "A", "ext", "A", W0, "good"),
  S(2, "A", "ext", "A", W1, "good"),
  S(3, "A", "int", "A", WMaxI64, "good"),
  S(4, "A", "ext", "A", W2p63, "good"),
  S(5, "A", "ext", "A", WMaxU64, "good"),
  S(6, "A", "ext", "A", WMaxMoney, "good") >>
ValOuts == <<
  O("A", "ext", 0, W1, "none", "none"),
  O("A", "ext", 1, WMaxI64, "none", "none"),
  O("B", "ext", 0, W2p63, "none", "none"),
  O("B", "int", 0, WMaxU64, "none", "none"),
  O("A", "int", 0, WMaxMoney, "none", "none") >>

TypesAll == AllTypes
TypesOpen == {[kind |-> "tx", flags |-> 3, req |-> FALSE]}
TypesShape == AllTypes
=============================================================================
