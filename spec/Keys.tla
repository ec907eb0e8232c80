-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys and addresses, and every way the library leads from one to         *)
(* another.  An object is a record with a kind k; its other fields are     *)
(* terms of Protocol, built method by method from the parent object.       *)
(* Canon gives the protocol's definition directly from the seed; the       *)
(* property is that every chain of methods ends at the canonical object.   *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets

Seeds == {"sk1", "sk2"}
Scopes == {"ext", "int"}

(* Objects. *)
OSk(x) == [k |-> "sk", sk |-> x]
OAsk(s) == [k |-> "ask", ask |-> s]
OAk(p) == [k |-> "ak", ak |-> p]
OFvk(f) == [k |-> "fvk", fvk |-> f]
OIvk(dk, ivk) == [k |-> "ivk", dk |-> dk, ivk |-> ivk]
OOvk(x) == [k |-> "ovk", ovk |-> x]
ODiv(d) == [k |-> "div", d |-> d]
OAddrP(d, pk) == [k |-> "addr", d |-> d, pk |-> pk]
OAddr(d, ivk) == OAddrP(d, PkD(ivk, d))
ORsk(s) == [k |-> "rsk", s |-> s]
ORk(p) == [k |-> "rk", p |-> p]

(* Methods: each maps an object to an object. *)
MFvk(o) == OFvk(FvkOf(o.sk))
MAsk(o) == OAsk(Ask(o.sk))
MAkOfAsk(o) == OAk(AkOf(o.ask))
MAkOfFvk(o) == OAk(o.fvk.ak)
MIvk(o, sc) == LET f == Scoped(o.fvk, sc) IN OIvk(DkOf(f), IvkOf(f))
MOvk(o, sc) == OOvk(OvkOf(Scoped(o.fvk, sc)))
MAddrAt(o, j) == OAddr(Diversifier(o.dk, j), o.ivk)              \* by an incoming viewing key
MAddrD(o, d) == OAddr(d, o.ivk)
MFvkAddrAt(o, sc, j) == MAddrAt(MIvk(o, sc), j)                  \* by a full viewing key
MFvkAddrD(o, sc, d) == MAddrD(MIvk(o, sc), d)
MDiv(o) == ODiv(o.d)
\* Altered addresses: another diversifier, or the transmission key negated.
MMix(o, i, j) == OAddrP(Diversifier(i.dk, j), o.pk)
MFlip(o) == OAddrP(o.d, Neg(o.pk))
MRsk(o, al) == ORsk(Add(o.ask, al))
MRkOfRsk(o) == ORk(AkOf(o.s))
MRkOfAk(o, al) == ORk(Add(o.ak, Mul(al, SpendAuthG)))

(* The bytes an object shows. *)
Shows(o) == CASE o.k = "sk" -> o.sk
              [] o.k = "ask" -> Empty                    \* not serializable
              [] o.k = "ak" -> Repr(o.ak)
              [] o.k = "fvk" -> FvkBytes(o.fvk)
              [] o.k = "ivk" -> IvkBytes(o.dk, o.ivk)
              [] o.k = "ovk" -> o.ovk
              [] o.k = "div" -> o.d
              [] o.k = "addr" -> AddrBytes(o.d, o.pk)
              [] o.k = "rsk" -> Repr(o.s)
              [] o.k = "rk" -> Repr(o.p)

(* Recognition.  A viewing key recognizes an address exactly when its      *)
(* incoming viewing key made it, whatever the diversifier.                 *)
Recognizes(ivkobj, addr) == addr.pk = PkD(ivkobj.ivk, addr.d)
IndexOf(ivkobj, addr) == DiversifierIndex(ivkobj.dk, addr.d)
ScopeOf(fvkobj, addr) ==
  IF Recognizes(MIvk(fvkobj, "ext"), addr) THEN "ext"
  ELSE IF Recognizes(MIvk(fvkobj, "int"), addr) THEN "int" ELSE "none"

(* Canonical objects of a seed. *)
CanonIvk(x, sc) == LET f == Scoped(FvkOf(x), sc) IN OIvk(DkOf(f), IvkOf(f))
CanonRk(x, al) == {AkOf(Add(Ask(x), al)), Add(AkOf(Ask(x)), Mul(al, SpendAuthG))}

(***************************************************************************)
(* What a holder of an object can compute: the closure under the methods.  *)
(* Capabilities only ever go down.                                         *)
(***************************************************************************)
Level(o) == CASE o.k \in {"sk"} -> 6 [] o.k \in {"ask", "rsk"} -> 5 [] o.k = "fvk" -> 4
              [] o.k \in {"ivk"} -> 3 [] o.k \in {"ovk"} -> 2 [] OTHER -> 1
=============================================================================
