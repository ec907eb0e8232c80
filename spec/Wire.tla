-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* A bundle as it comes from the network: well-formed parts, put together  *)
(* by anyone.  It is described by how it differs from a bundle that was    *)
(* honestly made, the base: every part is either the base's ("nf1" is the  *)
(* nullifier of its first action, "own" its proof) or something else that  *)
(* has a well-formed encoding, down to zeros, identities and noise.  What  *)
(* every consumer of the bundle must say about it follows.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Parts == {"nf", "rk", "cmx", "cv", "epk", "enc", "out", "sig"}
Orig(i) == [f \in Parts |-> f \o ToString(i)]
NullAct == [f \in Parts |-> IF f \in {"rk", "cv"} THEN "id" ELSE "zero"]
\* "two": both spends and outputs enabled, two actions; "mint": one output, no spends.
BaseActs(b) == IF b = "two" THEN << Orig(1), Orig(2) >> ELSE << Orig(1) >>
BaseFlags(b) == IF b = "two" THEN "3" ELSE "2"

VARIABLES base, acts, top
wvars == <<base, acts, top>>
BaseTop(b) == [flags |-> BaseFlags(b), bal |-> "own", anchor |-> "own", proof |-> "own", bsig |-> "own", hash |-> "own"]
Begin(b) == base = b /\ acts = BaseActs(b) /\ top = BaseTop(b)
N == Len(acts)

\* What can stand in each place.  "neg": the opposite point; "tag": the own ciphertext with another
\* authentication tag; "peer": the other base action's; "long": the own proof and more bytes.
Field == {"zero", "max", "fresh"}
Point == {"id", "gen", "neg", "fresh"}
Values(f) == CASE f \in {"nf", "cmx"} -> Field \cup {"peer"}
               [] f \in {"rk", "cv"} -> Point \cup {"peer"}
               [] f = "epk" -> {"zero", "ones", "neg", "fresh", "peer"}
               [] f = "enc" -> {"zero", "ones", "fresh", "tag", "peer"}
               [] f = "out" -> {"zero", "ones", "fresh", "tag", "peer"}
               [] f = "sig" -> {"zero", "ones", "fresh", "rzero", "szero", "peer"}
TopValues(g) == CASE g = "flags" -> {"0", "1", "2", "3"}
                  [] g = "bal" -> {"zero", "one", "neg", "min", "max"}
                  [] g = "anchor" -> Field \cup {"empty"}
                  [] g = "proof" -> {"none", "zero", "ones", "short", "long", "noise"}
                  [] g = "bsig" -> {"zero", "ones", "fresh", "rzero", "szero"}
                  [] g = "hash" -> {"other", "zero"}
\* A name says whose part it is, so the peer's first nullifier is "nf2" wherever it stands.
Own(a, f) == a[f] \in {f \o "1", f \o "2"}
Other(x, f) == IF x = f \o "1" THEN f \o "2" ELSE f \o "1"
Name(a, f, x) == IF x = "peer" THEN Other(a[f], f) ELSE IF x \in {"neg", "tag", "fresh", "rzero", "szero"} THEN x \o a[f] ELSE x
CanSet(i, f, x) == i \in 1..N /\ Own(acts[i], f) /\ x \in Values(f) /\ (x = "peer" => base = "two")
SetPart(i, f, x) == CanSet(i, f, x) /\ acts' = [acts EXCEPT ![i][f] = Name(acts[i], f, x)] /\ UNCHANGED <<base, top>>
SetAll(f, x) == (\A i \in 1..N : CanSet(i, f, x)) /\ acts' = [i \in 1..N |-> [acts[i] EXCEPT ![f] = Name(acts[i], f, x)]] /\ UNCHANGED <<base, top>>
SetTop(g, x) == top[g] = BaseTop(base)[g] /\ x \in TopValues(g) /\ top[g] # x /\ top' = [top EXCEPT ![g] = x] /\ UNCHANGED <<base, acts>>
Nullify(i) == i \in 1..N /\ acts[i] # NullAct /\ acts' = [acts EXCEPT ![i] = NullAct] /\ UNCHANGED <<base, top>>
Swap == N >= 2 /\ acts' = [acts EXCEPT ![1] = acts[2], ![2] = acts[1]] /\ acts' # acts /\ UNCHANGED <<base, top>>
Drop(i) == N > 1 /\ i \in 1..N /\ acts' = SubSeq(acts, 1, i - 1) \o SubSeq(acts, i + 1, N) /\ UNCHANGED <<base, top>>
Again(i, k) == i \in 1..N /\ acts' = acts \o [j \in 1..k |-> acts[i]] /\ UNCHANGED <<base, top>>
AddNull == acts' = Append(acts, NullAct) /\ UNCHANGED <<base, top>>

-----------------------------------------------------------------------------
InstFields == {"nf", "rk", "cmx", "cv"}
ProofOk == /\ top.proof = "own" /\ top.flags = BaseFlags(base) /\ top.anchor = "own" /\ N = Len(BaseActs(base))
           /\ \A i \in 1..N : \A f \in InstFields : acts[i][f] = BaseActs(base)[i][f]
\* Bytes after the proof's end are read by nobody; what is said of them is not specified.
ProofUnclear == top.proof = "long"

\* RedPallas: the all-zero signature is valid for the identity key, whatever the message, and
\* for no other key.
SigOk(a) == \/ a.rk = "id" /\ a.sig = "zero"
            \/ top.hash = "own" /\ \E k \in {"1", "2"} : a.sig = "sig" \o k /\ a.rk = "rk" \o k
SigsOk == \A i \in 1..N : SigOk(acts[i])

\* The sum of value commitments, as a formal sum of named points.
PointNames == {"cv1", "cv2", "freshcv1", "freshcv2", "gen"}
Coeff(a, p) == IF a.cv = p THEN 1 ELSE IF a.cv = "neg" \o p THEN -1 ELSE 0
Count(p, k) == Cardinality({i \in 1..N : Coeff(acts[i], p) = k})
Net == [p \in PointNames |-> Count(p, 1) - Count(p, -1)]
BaseNet == [p \in PointNames |-> IF p = "cv1" \/ (p = "cv2" /\ base = "two") THEN 1 ELSE 0]
BindOk == \/ top.bsig = "own" /\ top.bal = "own" /\ top.hash = "own" /\ Net = BaseNet
          \/ top.bsig = "zero" /\ top.bal = "zero" /\ \A p \in PointNames : Net[p] = 0
Valid == ProofOk /\ SigsOk /\ BindOk

\* Who can read what: action i read as the base's output k.
From(i, k, fs) == \A f \in fs : acts[i][f] = f \o k
Reads == {<<i, k>> \in (1..N) \X {"1", "2"} : From(i, k, {"nf", "cmx", "epk", "enc"})}
CompactReads == {<<i, k>> \in (1..N) \X {"1", "2"} : From(i, k, {"nf", "cmx", "epk"}) /\ acts[i].enc \in {"enc" \o k, "tagenc" \o k}}
Recovers == {<<i, k>> \in (1..N) \X {"1", "2"} : From(i, k, {"nf", "cmx", "epk", "enc", "cv", "out"})}

Effects(as, t) == [acts |-> [i \in 1..Len(as) |-> [f \in Parts \ {"sig"} |-> as[i][f]]], flags |-> t.flags, bal |-> t.bal, anchor |-> t.anchor]
Auths(as, t) == [sigs |-> [i \in 1..Len(as) |-> as[i].sig], proof |-> t.proof, bsig |-> t.bsig]
SameEffects == Effects(acts, top) = Effects(BaseActs(base), BaseTop(base))
SameAuths == Auths(acts, top) = Auths(BaseActs(base), BaseTop(base))
=============================================================================
