---------------------------- MODULE SamenessGen ----------------------------
EXTENDS Sameness, TLC, Json, CSV, IOUtils, SequencesExt
VARIABLES hist
gvars == <<seen, hist>>
NCompare == \E t \in Types : \E x, y \in Values(t) : \E p, q \in Routes :
              Compare(t, x, y, Same(t, x, y)) /\ hist' = [op |-> "compare", t |-> t, x |-> x, y |-> y, rx |-> p, ry |-> q]
NOrder == \E t \in Ordered : hist' = [op |-> "order", t |-> t, objs |-> SetToSeq(Values(t))] /\ UNCHANGED seen
Init == Begin /\ hist = [op |-> "none"]
Next == hist.op = "none" /\ (NCompare \/ NOrder)
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(<<hist'>>)>>, IOEnv.OUT)
\* Sameness is an equivalence.
Equivalence == hist.op = "none" => \A t \in Types : \A x, y \in Values(t) :
   Same(t, x, x) /\ (Same(t, x, y) => Same(t, y, x) /\ \A z \in Values(t) : Same(t, y, z) => Same(t, x, z))
=============================================================================
