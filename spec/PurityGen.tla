----------------------------- MODULE PurityGen -----------------------------
EXTENDS Purity, TLC, Json, CSV, IOUtils
CONSTANT Length
VARIABLES hist, done
gvars == <<known, hist, done>>
View == <<hist, done>>
\* An ideal library: the answer is the abstract answer.
Ideal(q) == IF Abs(q) = None THEN "none" ELSE IF q.f \in Verdicts THEN "yes" ELSE ToString(Abs(q))
Near(p, q) == p.f = q.f /\ Cardinality({i \in 1..Len(p.a) : p.a[i] # q.a[i]}) = 1
\* Neighbouring questions in turn, coming back to the first.
NAsk == /\ ~done /\ Len(hist) < Length
        /\ \E q \in (IF hist = <<>> THEN Questions ELSE {q \in QuestionsOf[hist[1].f] : Near(hist[Len(hist)], q)}) :
             Ask(q, Ideal(q)) /\ hist' = Append(hist, q)
        /\ done' = FALSE
Stop == ~done /\ Len(hist) \in 2..Length /\ done' = TRUE /\ hist' = Append(hist, hist[1]) /\ Ask(hist[1], Ideal(hist[1]))
Init == Begin /\ hist = <<>> /\ done = FALSE
Next == NAsk \/ Stop
Spec == Init /\ [][Next]_gvars
Emit == done' => CSVWrite("%1$s", <<ToJson([i \in 1..Len(hist') |-> [op |-> "ask", q |-> hist'[i]]])>>, IOEnv.OUT)
Functional == \A f \in Functions : \A j, k \in known[f] : j.q = k.q => j.x = k.x
\* Whatever was asked, every question can still be answered, in one way.
Answerable == ~done /\ hist # <<>> => \A q \in QuestionsOf[hist[1].f] : Consistent(q, Ideal(q))
=============================================================================
