----------------------------- MODULE Statement -----------------------------
(***************************************************************************)
(* What an action proof says.  A prover holds a witness: a note of one of  *)
(* its keys, a path, randomizers, and a new note.  The public values name  *)
(* terms of Protocol.  True says when the statement holds; it is what the  *)
(* verifier has to accept, and nothing else.                               *)
(***************************************************************************)
EXTENDS Protocol, Wide, TLC

WInt(x) == Fn("wide", <<I(x[1]), I(x[2]), I(x[3])>>)

\* The terms behind the names.  Variables: sk the owner's seed; d, rho, rs the old note's
\* parts; dn, pkdn, rsn the new note's; vo, vn the values as bytes; vx another value.
Key(w) == Scoped(FvkOf(V("sk")), w.scope)
Old(w) == [d |-> V("d"), pkd |-> PkD(IvkOf(Key(w)), V("d")), v |-> V("vo"), rho |-> V("rho"), rseed |-> V("rs")]
NfOld(w) == Nf(Old(w), Nk(V("sk")))
New(w) == [d |-> V("dn"), pkd |-> V("pkdn"), v |-> V("vn"), rho |-> NfOld(w), rseed |-> V("rsn")]
Ak == AkOf(Ask(V("sk")))
Rk == Add(Ak, Mul(V("alpha"), SpendAuthG))

AnchorTerm(x) == V("anchor." \o x)
CvTerm(c) == Cv(WInt(c.v), V("rcv." \o c.r))
NfTerm(w, x) == CASE x = "old" -> NfOld(w)
                  [] x = "new" -> Nf(New(w), Nk(V("sk")))
                  [] x = "otherkey" -> Nf(Old(w), Nk(V("skB")))
                  [] x = "rho" -> V("rho")
RkTerm(x) == CASE x \in {"rk", "id"} -> Rk [] x = "ak" -> Ak [] x = "minus" -> Neg(Rk)
               [] x = "other" -> Add(Ak, Mul(V("alpha2"), SpendAuthG))
               [] x = "otherkey" -> Add(AkOf(Ask(V("skB"))), Mul(V("alpha"), SpendAuthG))
CmxTerm(w, x) == CASE x = "new" -> Cmx(New(w)) [] x = "old" -> Cmx(Old(w))
                   [] x = "seed" -> Cmx([New(w) EXCEPT !.rseed = V("rs.other")])
                   [] x = "value" -> Cmx([New(w) EXCEPT !.v = V("vx")])
                   [] x = "rho" -> Cmx([New(w) EXCEPT !.rho = V("rho")])
Terms(w, p) == [anchor |-> Repr(AnchorTerm(p.anchor)), cv |-> Repr(CvTerm(p.cv)), nf |-> Repr(NfTerm(w, p.nf)),
                rk |-> Repr(RkTerm(p.rk)), cmx |-> Repr(CmxTerm(w, p.cmx))]

\* The public values that go with a witness.
RootOf(w) == IF w.path = "good" THEN "root" ELSE "bad"
CvOf(w) == [v |-> WSub(w.vo, w.vn), r |-> w.rcv]
RkOf(w) == CASE w.alpha = "zero" -> "ak" [] w.alpha = "unask" -> "id" [] OTHER -> "rk"
Honest(w) == [anchor |-> "root", cv |-> CvOf(w), nf |-> "old", rk |-> RkOf(w), cmx |-> "new", es |-> w.es, eo |-> w.eo]

\* The created note takes the spent note's nullifier as its rho, or there is no circuit.
Assembled(w) == w.rho = "nf"
True(w, p) == /\ Assembled(w)
              /\ w.vo = W0 \/ p.anchor = RootOf(w)
              /\ w.vo # W0 => p.es
              /\ w.vn # W0 => p.eo
              /\ p.cv = CvOf(w)
              /\ p.nf = "old"
              /\ p.rk = RkOf(w)
              /\ p.cmx = "new"
Outcome(w, p) == IF ~Assembled(w) THEN "refused" ELSE IF True(w, p) THEN "proven" ELSE "not proven"
=============================================================================
