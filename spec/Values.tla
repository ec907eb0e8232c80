------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Arithmetic on note values, value sums and value commitments.  A value   *)
(* sum is an integer of magnitude below 2^64; a commitment is to an        *)
(* integer v with a trapdoor that is an integer combination a, b of two    *)
(* independent scalars.                                                    *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets, Wide

Sum(v) == [k |-> "sum", v |-> v]
Overflow == [k |-> "overflow"]
Cm2(v, a, b) == [k |-> "cv", v |-> v, a |-> a, b |-> b]

Checked(v) == IF FitsSum(v) THEN Sum(v) ELSE Overflow
Diff(x, y) == Sum(WSub(x, y))                      \* of two note values: always in range
Plus(o, x, y) == Checked(WAdd(o.v, WSub(x, y)))
\* A list of sums: exact; or overflow, if the total or (in some order) a partial sum leaves the range.
RECURSIVE Pos(_)
Pos(s) == IF s = <<>> THEN W0 ELSE WAdd(IF WLe(W0, Head(s)) THEN Head(s) ELSE W0, Pos(Tail(s)))
NegPart(s) == WSub(WSum(s), Pos(s))
Total(s) == IF ~FitsSum(WSum(s)) THEN {Overflow}
            ELSE IF FitsSum(Pos(s)) /\ FitsSum(NegPart(s)) THEN {Sum(WSum(s))} ELSE {Sum(WSum(s)), Overflow}
AsI64(o) == IF FitsI64(o.v) THEN "fits" ELSE "overflow"

Commit(o, a, b) == Cm2(o.v, a, b)
CvAdd(x, y) == Cm2(WAdd(x.v, y.v), x.a + y.a, x.b + y.b)
CvSub(x, y) == Cm2(WSub(x.v, y.v), x.a - y.a, x.b - y.b)
RECURSIVE CvSum(_)
CvSum(s) == IF s = <<>> THEN Cm2(W0, 0, 0) ELSE CvAdd(Head(s), CvSum(Tail(s)))

WInt(x) == Fn("wide", <<I(x[1]), I(x[2]), I(x[3])>>)
ScaleT(n, t) == Fn("scale", <<I(n), t>>)
Trapdoor(a, b) == Add(ScaleT(a, V("r1")), ScaleT(b, V("r2")))
CvTerm(o) == Cv(WInt(o.v), Trapdoor(o.a, o.b))
=============================================================================
