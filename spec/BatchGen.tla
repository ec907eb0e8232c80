------------------------------ MODULE BatchGen ------------------------------
EXTENDS Batch, TLC, FiniteSets, Json, CSV, IOUtils
CONSTANTS Bundles, Pairs, MaxMixed
VARIABLES mode, done
gvars == <<batch, mode, done>>

Sigs == {[by |-> "own", h |-> "h1", off |-> o] : o \in {1, -1, 9}} \cup {[by |-> "peer", h |-> "h1", off |-> 0], Sig("h2")}
Defective(b) == LET g == Good(b, "h1") IN
     {[g EXCEPT !.proof = x] : x \in {"bent", "other", "empty"}}
  \cup {[g EXCEPT !.insts = x] : x \in {"anchor", "flags"} \cup (IF NActs(b) > 1 THEN {"order"} ELSE {})}
  \cup {[g EXCEPT !.h = "h2"], [g EXCEPT !.bal = 1], [g EXCEPT !.bal = -1]}
  \cup {[g EXCEPT !.ss[i] = x] : i \in 1..NActs(b), x \in {y \in Sigs : NActs(b) > 1 \/ y.by = "own"}}
  \cup {[g EXCEPT !.bs = x] : x \in Sigs}
  \cup (IF NActs(b) > 1 THEN {[g EXCEPT !.ss[1].off = 1, !.ss[2].off = -1]} ELSE {})
  \cup {[g EXCEPT !.ss[1].off = 1, !.bs.off = -1], [g EXCEPT !.proof = "bent", !.ss[1].off = 9],
        [g EXCEPT !.h = "h2", !.bs = Sig("h2")], [g EXCEPT !.h = "h2", !.ss = [i \in 1..NActs(b) |-> Sig("h2")]]}
GoodOnes == {Good(b, h) : b \in Bundles, h \in {"h1", "h2"}}
Catalogue == GoodOnes \cup UNION {Defective(b) : b \in Bundles}
\* A few of each kind, for the longer batches.
GA == Good("a", "h1")
GB == Good("b", "h1")
GE == Good("e", "h1") \* its value balance is zero
Some == {GA, Good("b", "h2"), Good("c", "h1"), [GA EXCEPT !.ss[1].off = 1], [GA EXCEPT !.ss[1].off = -1], [GB EXCEPT !.ss[2].off = -1],
         [GB EXCEPT !.bs.off = 1], [GA EXCEPT !.bs.off = -1], [GB EXCEPT !.proof = "bent"], [GB EXCEPT !.proof = "other"], [GA EXCEPT !.h = "h2"],
         [GB EXCEPT !.bal = 1], [GA EXCEPT !.insts = "order"], GE, [GE EXCEPT !.bs.off = 9], [GE EXCEPT !.bs.h = "h2"], [GE EXCEPT !.bal = 1],
         [GB EXCEPT !.bs = [by |-> "peer", h |-> "h1", off |-> 0]]}
Few == {GA, Good("b", "h2"), [GA EXCEPT !.ss[1].off = 1], [GB EXCEPT !.ss[1].off = -1], [GB EXCEPT !.proof = "bent"], [GE EXCEPT !.bs.off = 1]}
Defects == {[GA EXCEPT !.ss[2].off = 1], [GA EXCEPT !.proof = "bent"], [GA EXCEPT !.bs.off = 9], GA}

\* Batches of many members with at most one defective one, near the front or the end.
Sizes == {22, 43, 64}
Many(n, k, d) == [i \in 1..n |-> IF i = k THEN d ELSE CASE i % 5 = 2 -> Good("b", "h2") [] i % 5 = 3 -> Good("c", "h1") [] OTHER -> GA]
Huge == {Many(n, k, d) : n \in Sizes, k \in {1, 2}, d \in {GA}} \cup {Many(n, n - j, d) : n \in Sizes, j \in {0, 1, 15}, d \in Defects}
Init == batch = <<>> /\ done = FALSE /\ mode \in {"any", "some", "few", "long", "huge"}
NAdd == /\ ~done
        /\ \/ mode = "any" /\ Len(batch) < 1 /\ \E m \in Catalogue : AddBundle(m)
           \/ mode = "some" /\ Len(batch) < Pairs /\ \E m \in Some : AddBundle(m)
           \/ mode = "few" /\ Len(batch) < MaxMixed /\ \E m \in Few : AddBundle(m)
           \* A long batch with at most one defective member.
           \/ mode = "long" /\ Len(batch) < 7 /\ \E m \in (IF \A i \in 1..Len(batch) : Valid(batch[i]) THEN Defects ELSE {GA}) : AddBundle(m)
           \/ mode = "huge" /\ batch = <<>> /\ batch' \in Huge
        /\ UNCHANGED <<mode, done>>
Ask == /\ ~done /\ done' = TRUE /\ UNCHANGED <<batch, mode>>
       /\ (mode = "some" => Len(batch) = Pairs) /\ (mode = "few" => Len(batch) = MaxMixed) /\ (mode = "long" => Len(batch) = 7) /\ (mode = "huge" => batch # <<>>)
Next == NAdd \/ Ask
Spec == Init /\ [][Next]_gvars
Emit == done' => CSVWrite("%1$s", <<ToJson([i \in 1..Len(batch) |-> [op |-> "add", m |-> batch[i]]] \o <<[op |-> "validate"]>>)>>, IOEnv.OUT)

\* Once a batch holds an invalid member it is never accepted again.
Monotone == [][~Verdict => ~Verdict']_gvars
Conj == Verdict = ~\E i \in 1..Len(batch) : ~Valid(batch[i])
=============================================================================
