----------------------------- MODULE VerifyGen -----------------------------
EXTENDS Verify, FiniteSets, Json, CSV, IOUtils
CONSTANTS Bases, Bases2, Depth    \* bases edited once in every way; bases edited further
VARIABLES hist, done
gvars == <<base, insts, pf, hist, done>>
View == <<base, insts, pf, Len(hist), done>>

Init == /\ \E b \in Bases : Begin(b) /\ hist = << [op |-> "start", base |-> b] >>
        /\ done = FALSE
N == Len(hist) - 1     \* edits so far
Go(c) == ~done /\ hist' = Append(hist, c) /\ done' = FALSE
Idx == 1..3
FieldNames(k) == {n \o ToString(i) : n \in {"anchor", "nf", "cmx"}, i \in k} \cup {"fresh", "zero"}
PointNames(k) == {n \o ToString(i) : n \in {"cv", "rk", "-cv", "-rk"}, i \in k} \cup {"id", "fresh"}
AltsFull(f) == IF f \in {"cv", "rk"} THEN PointNames({1, 2}) ELSE FieldNames({1, 2})
AltsOwn(f) == {f \o ToString(i) : i \in {1, 2, 3}}
\* A name stands for something only if the base has that instance, and the identity has one name.
Means(x) == /\ \E i \in 1..Len(BaseOf(base)) : \E f \in {"anchor", "cv", "nf", "rk", "cmx"} : BaseOf(base)[i][f] \in {x} \/ (f \in {"cv", "rk"} /\ x = "-" \o BaseOf(base)[i][f] /\ BaseOf(base)[i][f] # "id")
            \/ x \in {"fresh", "zero", "id"}
Fields == {"anchor", "cv", "nf", "rk", "cmx"}
NReplace == \E i \in Idx, f \in Fields : \E x \in (IF N = 0 THEN AltsFull(f) ELSE AltsOwn(f)) :
              Means(x) /\ Replace(i, f, x) /\ Go([op |-> "replace", i |-> i, f |-> f, x |-> x])
NFlag == \E i \in Idx, f \in {"es", "eo"}, x \in BOOLEAN : Replace(i, f, x) /\ Go([op |-> "replace", i |-> i, f |-> f, x |-> x])
NAll == \/ \E f \in {"es", "eo"}, x \in BOOLEAN : ReplaceAll(f, x) /\ Go([op |-> "all", f |-> f, x |-> x])
        \/ \E x \in {"fresh", "zero"} : ReplaceAll("anchor", x) /\ Go([op |-> "all", f |-> "anchor", x |-> x])
NSwap == \E i, j \in Idx : Swap(i, j) /\ Go([op |-> "swap", i |-> i, j |-> j])
NDrop == \E i \in Idx : Drop(i) /\ Go([op |-> "drop", i |-> i])
NDup == \E i \in 0..3, k \in Idx : k <= Len(insts) /\ Insert(i, insts[k]) /\ Go([op |-> "dup", i |-> i, k |-> k])
NForeign == \E i \in {0, Len(insts)} : Insert(i, Foreign) /\ Go([op |-> "foreign", i |-> i])
NReproof == \E x \in Proofs : (N = 0 \/ x \in {"made", "again", "other", "empty"}) /\ Reproof(x) /\ Go([op |-> "reproof", x |-> x])
Edit == /\ N < Depth /\ (N >= 1 => base \in Bases2)
        /\ NReplace \/ NFlag \/ NAll \/ NSwap \/ NDrop \/ NDup \/ NForeign \/ NReproof
\* How the verifier is asked.  A bundle carries more than its instances: none of it matters here.
Routes == {"verify", "batch", "batch+"} \cup (IF Uniform THEN {"bundle", "action"} ELSE {})
Extras == {"none", "balance", "spendsig", "bindsig", "cipher"}
Ask == /\ ~done /\ done' = TRUE
       /\ \E x \in Routes, y \in Extras :
            /\ (y # "none" => x = "bundle" /\ N <= 1)
            /\ (N >= 2 => x = IF Uniform THEN "bundle" ELSE "batch")
            /\ hist' = Append(hist, [op |-> "verify", route |-> x, extra |-> y])
       /\ UNCHANGED vvars
Next == Edit \/ Ask
Spec == Init /\ [][Next]_gvars
Emit == done' => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

\* Undoing an edit restores the verdict; any single effective edit takes it away.
Fragile == [][(Verdict = "valid" /\ insts' # insts) => Verdict' = "invalid"]_gvars
ProofMatters == (Verdict = "valid") => GoodProof /\ Len(insts) = Len(BaseOf(base))
=============================================================================
