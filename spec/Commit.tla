------------------------------- MODULE Commit -------------------------------
(***************************************************************************)
(* The transaction and authorizing commitments of a bundle (ZIP 244), and  *)
(* how alterations of the bundle show in them.  Contents are named: equal  *)
(* names are equal bytes, different names different bytes.                 *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets, TLC

EffectFields == {"nf", "cmx", "epk", "encC", "encM", "encT", "out", "cv", "rk"}
Versions == {"0", "1"}
Other(v) == IF v = "0" THEN "1" ELSE "0"

\* An action's content: each part is <<which action it was made for, version>>.
\* Extreme contents ("z": zero bytes, the identity, nothing; "f": all ones, the greatest
\* element) are the same for every action.
Extreme == {"z", "f"}
Part(i, v) == IF v \in Extreme THEN <<0, v>> ELSE <<i, v>>
NewAction(i, v) == [f \in EffectFields \cup {"sig"} |-> Part(i, v)]
NewBundle(n, v) == [acts |-> [i \in 1..n |-> NewAction(i, v)], flags |-> 3, vb |-> v, anchor |-> v,
                    proof |-> v, bsig |-> v]

Nm(f, c) == V(f \o ToString(c[1]) \o "." \o c[2])
ActTerm(x) == [nf |-> Nm("nf", x.nf), cmx |-> Nm("cmx", x.cmx), epk |-> Nm("epk", x.epk),
               enc |-> Cat(<<Nm("encC", x.encC), Nm("encM", x.encM), Nm("encT", x.encT)>>),
               out |-> Nm("out", x.out), cv |-> Nm("cv", x.cv), rk |-> Nm("rk", x.rk)]
Txid(b) == TxidDigest([acts |-> [i \in 1..Len(b.acts) |-> ActTerm(b.acts[i])],
                       flags |-> L(<<b.flags>>), vb |-> V("vb." \o b.vb), anchor |-> V("anchor." \o b.anchor)])
Auth(b) == AuthDigest(V("proof." \o b.proof), [i \in 1..Len(b.acts) |-> Nm("sig", b.acts[i].sig)], V("bsig." \o b.bsig))

\* What a bundle does, and how it is authorized.
Effects(b) == [acts |-> [i \in 1..Len(b.acts) |-> [f \in EffectFields |-> b.acts[i][f]]],
               flags |-> b.flags, vb |-> b.vb, anchor |-> b.anchor]
Authorizing(b) == [proof |-> b.proof, sigs |-> [i \in 1..Len(b.acts) |-> b.acts[i].sig], bsig |-> b.bsig]

---------------------------------------------------------------------------
(* Alterations.                                                            *)
AltField(b, i, f) == [b EXCEPT !.acts[i][f] = <<@[1], Other(@[2])>>]
SetField(b, i, f, v) == [b EXCEPT !.acts[i][f] = Part(i, v)]
ShareField(b, i, j, f) == [b EXCEPT !.acts[i][f] = b.acts[j][f]]
SwapField(b, i, j, f) == [b EXCEPT !.acts[i][f] = b.acts[j][f], !.acts[j][f] = b.acts[i][f]]
SwapActs(b, i, j) == [b EXCEPT !.acts[i] = b.acts[j], !.acts[j] = b.acts[i]]
DropAct(b, i) == [b EXCEPT !.acts = [k \in 1..(Len(@) - 1) |-> IF k < i THEN @[k] ELSE @[k + 1]]]
CopyAct(b, i) == [b EXCEPT !.acts = Append(@, @[i])]
AltTop(b, f) == [b EXCEPT ![f] = Other(@)]
SetTop(b, f, v) == [b EXCEPT ![f] = v]
SetFlags(b, x) == [b EXCEPT !.flags = x]
SetProof(b, p) == [b EXCEPT !.proof = p]
ProofVersions == {"0", "1", "short", "long", "empty", "z", "f"}
=============================================================================
