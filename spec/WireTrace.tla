----------------------------- MODULE WireTrace -----------------------------
(* Judges what the crate's consumers say about bundles put together by     *)
(* anyone: there is an answer, and it is the specification's.              *)
EXTENDS Wire, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
tvars == <<base, acts, top, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 2 /\ Begin(Runs[r][1].base)
IsOp(op) == l <= Len(Runs[r]) /\ E.op = op /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
Pairs(s) == {<<s[j].i, s[j].k>> : j \in 1..Len(s)}
Answer(x) == /\ ("proof" \in DOMAIN x => ProofUnclear \/ x.proof = ProofOk)
             /\ DOMAIN x \cap {"proof", "batch", "mixed"} # {}
             /\ \A i \in 1..N : x.sigs[i] = SigOk(acts[i])
             /\ Len(x.sigs) = N
             /\ x.bind = BindOk
             /\ ("batch" \in DOMAIN x => ProofUnclear \/ x.batch = Valid)
             /\ ("mixed" \in DOMAIN x => ProofUnclear \/ x.mixed = Valid)
             /\ Pairs(x.dec) = Reads /\ Len(x.dec) = Cardinality(Reads)
             /\ Pairs(x.one) = Reads /\ Len(x.one) = Cardinality(Reads)
             /\ Pairs(x.compact) = CompactReads /\ Len(x.compact) = Cardinality(CompactReads)
             /\ Pairs(x.rec) = Recovers /\ Len(x.rec) = Cardinality(Recovers)
             /\ x.tx = SameEffects /\ x.auth = SameAuths
             /\ x.mapped = "same" /\ x.shown = "shown"
T == \/ IsOp("part") /\ SetPart(E.i, E.f, E.x)
     \/ IsOp("all") /\ SetAll(E.f, E.x)
     \/ IsOp("top") /\ SetTop(E.g, E.x)
     \/ IsOp("null") /\ Nullify(E.i)
     \/ IsOp("swap") /\ Swap
     \/ IsOp("drop") /\ Drop(E.i)
     \/ IsOp("again") /\ Again(E.i, E.k)
     \/ IsOp("addnull") /\ AddNull
     \/ IsOp("consume") /\ Answer(E.saw) /\ UNCHANGED wvars
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == T \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
