------------------------------- MODULE NoteEnc -------------------------------
(***************************************************************************)
(* What a sender puts into an action for its recipient and itself, what an *)
(* adversary may make of it, and what holders of viewing keys read.        *)
(* All contents are terms of Protocol; the reader decrypts symbolically:   *)
(* a ciphertext opens under exactly the key it was made with, and an       *)
(* altered ciphertext does not open.                                       *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets, TLC

Parties == {"A", "B"}
Scopes == {"ext", "int"}
Keys == {<<p, s>> : p \in Parties, s \in Scopes}
KName(k) == k[1] \o "." \o k[2]
KeyNames == {KName(k) : k \in Keys}
\* Outgoing viewing keys are any 32 bytes; these belong to no full viewing key.
OddOvks == {"zero", "ones", "any"}
OvkNames == KeyNames \cup OddOvks
IvkV(kn) == V("ivk." \o kn)
OvkV(kn) == V("ovk." \o kn)

Note(kn, d, v, rseed, rho) == [d |-> d, pkd |-> PkD(IvkV(kn), d), v |-> v, rho |-> rho, rseed |-> rseed]
TheNote(i, kn, rho) == Note(kn, V("d" \o i), V("v" \o i), V("rseed" \o i), rho)

Parts == {"nf", "cmx", "epk", "encC", "encM", "encT", "out", "cv"}
Split(enc) == [encC |-> Slice(enc, 0, 52), encM |-> Slice(enc, 52, 512), encT |-> Slice(enc, 564, 16)]

(* A sender's choices.  The honest ones: version 2, the commitment of the  *)
(* note, the ephemeral key derived from the note's seed, and the outgoing  *)
(* plaintext naming the same recipient and ephemeral secret.               *)
Honest == [ver |-> 2, com |-> "same", esk |-> "derived", epk |-> "match", ptd |-> "same", outp |-> "right"]
Dishonesty == [ver |-> {1, 3, 0}, com |-> {"value", "rseed", "rho", "addr"}, esk |-> {"foreign"}, epk |-> {"other", "otherbase"},
               ptd |-> {"otherd", "otherpkd"}, outp |-> {"pkd", "esk", "badpkd", "badesk", "zeroesk", "junk"}]

\* The action output i is put into, by a sender making the choices c.
Output(i, to, ovk, memo, c) ==
  LET rho == V("rho" \o i)
      n0 == TheNote(i, to, rho)
      \* otherpkd: the key agreed on is that of an address nobody holds.
      n1 == IF c.ptd = "otherpkd" THEN [n0 EXCEPT !.pkd = Mul(V("strayk"), DiversifyHash(V("d" \o i)))] ELSE n0
      esk == IF c.esk = "derived" THEN Esk(n1) ELSE V("foreignesk")
      gd == DiversifyHash(n1.d)
      epk == CASE c.epk = "match" -> Mul(esk, gd)
               [] c.epk = "other" -> Mul(V("otheresk"), gd)
               [] c.epk = "otherbase" -> Mul(esk, DiversifyHash(V("dalt")))
      shared == IF c.epk = "otherbase" THEN Mul(esk, Mul(n1.pkd.a[1], DiversifyHash(V("dalt")))) ELSE Mul(esk, n1.pkd)
      \* otherd: the plaintext names another address of the recipient.
      n2 == IF c.ptd = "otherd" THEN Note(to, V("dalt"), n1.v, n1.rseed, rho) ELSE n1
      committed == CASE c.com = "same" -> n2
                     [] c.com = "value" -> [n2 EXCEPT !.v = V("valt")]
                     [] c.com = "rseed" -> [n2 EXCEPT !.rseed = V("rseedalt")]
                     [] c.com = "rho" -> [n2 EXCEPT !.rho = V("rhoalt")]
                     [] c.com = "addr" -> Note(to, V("dalt2"), n2.v, n2.rseed, rho)
      epkb == Repr(epk)
      enc == Aead(KdfKey(shared, epkb), Cat(<<L(<<c.ver>>), n2.d, n2.v, n2.rseed, V("memo." \o memo)>>))
      cv == V("cv" \o i)
      op == CASE c.outp = "right" -> Cat(<<Repr(n1.pkd), Repr(esk)>>)
              [] c.outp = "pkd" -> Cat(<<Repr(PkD(IvkV(to), V("dalt"))), Repr(esk)>>)
              [] c.outp = "esk" -> Cat(<<Repr(n1.pkd), Repr(V("otheresk"))>>)
              [] c.outp = "badpkd" -> Cat(<<V("badpoint"), Repr(esk)>>)
              [] c.outp = "badesk" -> Cat(<<Repr(n1.pkd), V("badscalar")>>)
              [] c.outp = "zeroesk" -> Cat(<<Repr(n1.pkd), V("zeroscalar")>>)
              [] c.outp = "junk" -> Cat(<<V("junk32"), V("junk32b")>>)
      out == IF ovk = "none" THEN V("junkout" \o i)
             ELSE Aead(Ock(OvkV(ovk), Repr(cv), Repr(Cmx(committed)), epkb), op)
  IN [nf |-> Repr(rho), cmx |-> Repr(Cmx(committed)), epk |-> epkb, out |-> out, cv |-> Repr(cv)] @@ Split(enc)

---------------------------------------------------------------------------
(* Readers.                                                                *)
None == [f |-> "none"]
IsRepr(x) == x.f = "repr"
AsPoint(x) == IF IsRepr(x) /\ x.a[1].f \in {"mul", "neg"} THEN x.a[1] ELSE None    \* a point, not the identity
AsScalar(x) == IF IsRepr(x) /\ (x.a[1].f = "to_scalar" \/ x.a[1] \in {V("foreignesk"), V("otheresk")}) THEN x.a[1] ELSE None
\* ivk * (esk * G) in the form esk * (ivk * G) in which the sender computes it.
Agree(ivk, P) == IF P.f = "mul" THEN Mul(P.a[1], Mul(Fn("base_to_scalar", <<ivk>>), P.a[2])) ELSE Mul(Fn("base_to_scalar", <<ivk>>), P)
Open(key, ct) == IF ct.f = "aead" /\ ct.a[1] = key THEN ct.a[2] ELSE None
Whole(x) == LET ct == x.encC.a[1] IN
  IF /\ x.encC = Slice(ct, 0, 52) /\ x.encM = Slice(ct, 52, 512) /\ x.encT = Slice(ct, 564, 16) THEN ct ELSE None
Start52(x) == IF x.encC.f = "slice" THEN x.encC.a[1] ELSE None

Read(pt, pkdOf(_), x, withMemo) ==
  IF pt = None \/ pt.a[1] # L(<<2>>) THEN None
  ELSE LET n == [d |-> pt.a[2], pkd |-> pkdOf(pt.a[2]), v |-> pt.a[3], rho |-> x.nf.a[1], rseed |-> pt.a[4]] IN
       IF Repr(Cmx(n)) = x.cmx /\ Repr(Epk(n)) = x.epk
       THEN [f |-> "note", n |-> n, memo |-> IF withMemo THEN pt.a[5] ELSE Empty] ELSE None

\* By an incoming viewing key, from the whole action or its compact form.
Incoming(kn, x, compact) ==
  LET P == AsPoint(x.epk)
      key == KdfKey(Agree(IvkV(kn), P), x.epk)
      ct == IF compact THEN Start52(x) ELSE IF x.encC.f # "slice" THEN None ELSE Whole(x)
      pkdOf(d) == PkD(IvkV(kn), d)
  IN IF P = None \/ ct = None THEN None ELSE Read(Open(key, ct), pkdOf, x, ~compact)
\* By an outgoing viewing key.
Outgoing(kn, x) ==
  LET op == Open(Ock(OvkV(kn), x.cv, x.cmx, x.epk), x.out)
      pkd == IF op = None THEN None ELSE AsPoint(op.a[1])
      esk == IF op = None THEN None ELSE AsScalar(op.a[2])
      pkdOf(d) == pkd
      ct == IF x.encC.f # "slice" THEN None ELSE Whole(x)
  IN IF pkd = None \/ esk = None \/ ct = None THEN None
     ELSE LET res == Read(Open(KdfKey(Mul(esk, pkd), x.epk), ct), pkdOf, x, TRUE) IN
          IF res # None /\ Esk(res.n) = esk THEN res ELSE None
Reads(how, kn, x) == CASE how = "full" -> Incoming(kn, x, FALSE)
                       [] how = "compact" -> Incoming(kn, x, TRUE)
                       [] how = "out" -> Outgoing(kn, x)
Hows == {"full", "compact", "out"}
HoldersOf(how) == IF how = "out" THEN OvkNames ELSE KeyNames

\* What a whole bundle scan reports: per action, the first key in the list that reads it.
Scan(how, bundle, keys) ==
  LET hits(i) == {k \in 1..Len(keys) : Reads(how, keys[k], bundle[i]) # None}
      first(ks) == CHOOSE k \in ks : \A m \in ks : k <= m
  IN [i \in 1..Len(bundle) |-> IF hits(i) = {} THEN 0 ELSE first(hits(i))]

---------------------------------------------------------------------------
(* Alterations of an action, as changes the reader can tell.               *)
Alter(x, p) == [x EXCEPT ![p] =
   IF p \in {"nf", "cmx"} THEN Repr(Add(@.a[1], Fn("base_int", <<I(1)>>)))
   ELSE IF p = "cv" THEN Repr(Neg(@.a[1]))
   ELSE IF p = "epk" THEN Repr(Neg(@.a[1]))
   ELSE Fn("flip", <<@>>)]
\* Ephemeral keys that are no curve point, or the identity.
Unparse(x, what) == [x EXCEPT !.epk = V(what)]
Mixed(x, y, ps) == [p \in Parts |-> IF p \in ps THEN y[p] ELSE x[p]]
\* What each kind of reader depends on.
DependsOn(how) == CASE how = "full" -> {"nf", "cmx", "epk", "encC", "encM", "encT"}
                    [] how = "compact" -> {"nf", "cmx", "epk", "encC"}
                    [] how = "out" -> {"nf", "cmx", "epk", "encC", "encM", "encT", "out", "cv"}
=============================================================================
