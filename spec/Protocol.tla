------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The Orchard protocol's derivations as terms.  A term is                 *)
(*    [f |-> function, a |-> arguments]                                    *)
(* or a leaf: V(name) an input, I(n) an integer, S(s) an ASCII string,     *)
(* L(b) literal bytes.  The functions are the primitives the protocol      *)
(* specification names; everything else is defined here from them.         *)
(* Terms are compared symbolically: two different terms are taken to       *)
(* denote different values (perfect cryptography); the conformance harness *)
(* evaluates terms with independent implementations of the primitives.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fn(f, a) == [f |-> f, a |-> a]
V(x) == [f |-> "var", s |-> x]
I(n) == [f |-> "int", n |-> n]
S(x) == [f |-> "str", s |-> x]
L(b) == [f |-> "lit", b |-> b]

Cat(a) == Fn("cat", a)
Slice(x, i, n) == Fn("slice", <<x, I(i), I(n)>>)
Blake(len, pers, msg) == Fn("blake2b", <<I(len), S(pers), msg>>)
Repr(x) == Fn("repr", <<x>>)
ToScalar(x) == Fn("to_scalar", <<x>>)
ToBase(x) == Fn("to_base", <<x>>)
Neg(x) == Fn("neg", <<x>>)
Add(x, y) == Fn("add", <<x, y>>)
Mul(k, p) == Fn("mul", <<k, p>>)
Extract(p) == Fn("extract", <<p>>)            \* x-coordinate; 0 for the identity
GroupHash(dom, msg) == Fn("group_hash", <<S(dom), msg>>)
HashToPoint(dom, bits) == Fn("sinsemilla", <<S(dom), bits>>)
Poseidon(x, y) == Fn("poseidon", <<x, y>>)
Bits(x, n) == Fn("bits", <<x, I(n)>>)         \* the low n bits, little-endian
BitCat(a) == Fn("bitcat", a)
Empty == L(<<>>)

---------------------------------------------------------------------------
(* Fixed bases.                                                            *)
SpendAuthG == GroupHash("z.cash:Orchard", S("G"))
NullifierK == GroupHash("z.cash:Orchard", S("K"))
ValueV == GroupHash("z.cash:Orchard-cv", S("v"))
ValueR == GroupHash("z.cash:Orchard-cv", S("r"))

(* Commitments.                                                            *)
SinsemillaCommit(dom, r, bits) ==
  Add(HashToPoint(dom \o "-M", bits), Mul(r, GroupHash(dom \o "-r", Empty)))

PRFexpand(k, t) == Blake(64, "Zcash_ExpandSeed", Cat(<<k, t>>))

---------------------------------------------------------------------------
(* Keys (protocol 4.2.3, ZIP 32).                                          *)
AskRaw(sk) == ToScalar(PRFexpand(sk, L(<<6>>)))
\* ask is negated when the y-coordinate of its public point is odd.
Ask(sk) == Fn("if_odd_y", <<Mul(AskRaw(sk), SpendAuthG), Neg(AskRaw(sk)), AskRaw(sk)>>)
AkOf(ask) == Mul(ask, SpendAuthG)
Nk(sk) == ToBase(PRFexpand(sk, L(<<7>>)))
Rivk(sk) == ToScalar(PRFexpand(sk, L(<<8>>)))

FvkOf(sk) == [ak |-> AkOf(Ask(sk)), nk |-> Nk(sk), rivk |-> Rivk(sk)]
InternalFvk(k) == [ak |-> k.ak, nk |-> k.nk,
   rivk |-> ToScalar(PRFexpand(Repr(k.rivk), Cat(<<L(<<131>>), Repr(k.ak), Repr(k.nk)>>)))]
Scoped(k, sc) == IF sc = "ext" THEN k ELSE InternalFvk(k)
IvkOf(k) == Extract(SinsemillaCommit("z.cash:Orchard-CommitIvk", k.rivk,
                     BitCat(<<Bits(Repr(Extract(k.ak)), 255), Bits(Repr(k.nk), 255)>>)))
DkOvk(k) == PRFexpand(Repr(k.rivk), Cat(<<L(<<130>>), Repr(k.ak), Repr(k.nk)>>))
DkOf(k) == Slice(DkOvk(k), 0, 32)
OvkOf(k) == Slice(DkOvk(k), 32, 32)
Diversifier(dk, j) == Fn("ff1enc", <<dk, j>>)
DiversifierIndex(dk, d) == IF d.f = "ff1enc" /\ d.a[1] = dk THEN d.a[2] ELSE Fn("ff1dec", <<dk, d>>)
DiversifyHash(d) == Fn("or_if_identity", <<GroupHash("z.cash:Orchard-gd", d), GroupHash("z.cash:Orchard-gd", Empty)>>)
PkD(ivk, d) == Mul(Fn("base_to_scalar", <<ivk>>), DiversifyHash(d))
FvkBytes(k) == Cat(<<Repr(k.ak), Repr(k.nk), Repr(k.rivk)>>)
IvkBytes(dk, ivk) == Cat(<<dk, Repr(ivk)>>)
AddrBytes(d, pkd) == Cat(<<d, Repr(pkd)>>)

(* ZIP 32: an extended key is a 64-byte string sk || chain code.           *)
Master(seed) == Blake(64, "ZcashIP32Orchard", seed)
Child(x, i4) == PRFexpand(Slice(x, 32, 32), Cat(<<L(<<129>>), Slice(x, 0, 32), i4>>))
Harden(b4) == L(<<b4[1], b4[2], b4[3], b4[4] + 128>>)
AccountKey(seed, coin4, acct4) ==
  Slice(Child(Child(Child(Master(seed), L(<<32, 0, 0, 128>>)), Harden(coin4)), Harden(acct4)), 0, 32)

---------------------------------------------------------------------------
(* Notes: [d, pkd, v, rho, rseed], v an 8-byte string, rho a base element. *)
Esk(n) == ToScalar(PRFexpand(n.rseed, Cat(<<L(<<4>>), Repr(n.rho)>>)))
Rcm(n) == ToScalar(PRFexpand(n.rseed, Cat(<<L(<<5>>), Repr(n.rho)>>)))
Psi(n) == ToBase(PRFexpand(n.rseed, Cat(<<L(<<9>>), Repr(n.rho)>>)))
Cm(n) == SinsemillaCommit("z.cash:Orchard-NoteCommit", Rcm(n),
           BitCat(<<Bits(Repr(DiversifyHash(n.d)), 256), Bits(Repr(n.pkd), 256), Bits(n.v, 64),
                    Bits(Repr(n.rho), 255), Bits(Repr(Psi(n)), 255)>>))
Cmx(n) == Extract(Cm(n))
Nf(n, nk) == Extract(Add(Mul(Fn("base_to_scalar", <<Add(Poseidon(nk, n.rho), Psi(n))>>), NullifierK), Cm(n)))

(* Value commitment to a signed amount, given as an i128 variable.         *)
Cv(v, rcv) == Add(Mul(Fn("int_to_scalar", <<v>>), ValueV), Mul(rcv, ValueR))

(* Encryption of a note to its recipient and its sender.                   *)
Epk(n) == Mul(Esk(n), DiversifyHash(n.d))
KdfKey(shared, epk) == Blake(32, "Zcash_OrchardKDF", Cat(<<Repr(shared), epk>>))
NotePlaintext(n, memo) == Cat(<<L(<<2>>), n.d, n.v, n.rseed, memo>>)
Aead(key, pt) == Fn("aead", <<key, pt>>)
EncCiphertext(n, memo) == Aead(KdfKey(Mul(Esk(n), n.pkd), Repr(Epk(n))), NotePlaintext(n, memo))
Ock(ovk, cv, cmx, epk) == Blake(32, "Zcash_Orchardock", Cat(<<ovk, cv, cmx, epk>>))
OutPlaintext(n) == Cat(<<Repr(n.pkd), Repr(Esk(n))>>)
OutCiphertext(n, ovk, cv) == Aead(Ock(ovk, Repr(cv), Repr(Cmx(n)), Repr(Epk(n))), OutPlaintext(n))

---------------------------------------------------------------------------
(* Merkle tree.                                                            *)
MerkleNode(lev, x, y) ==
  Fn("or_zero", <<HashToPoint("z.cash:Orchard-MerkleCRH",
        BitCat(<<Bits(I(lev), 10), Bits(Repr(x), 255), Bits(Repr(y), 255)>>))>>)
RECURSIVE EmptyRoot(_)
EmptyRoot(lev) == IF lev = 0 THEN Fn("base_int", <<I(2)>>)
                  ELSE MerkleNode(lev - 1, EmptyRoot(lev - 1), EmptyRoot(lev - 1))

---------------------------------------------------------------------------
(* ZIP 244 digests.  A bundle is [acts, flags, vb, anchor] of byte terms;  *)
(* an action is [nf, cmx, epk, enc, out, cv, rk].                          *)
CatEach(g(_), s) == Cat([i \in 1..Len(s) |-> g(s[i])])
CompactPart(x) == Cat(<<x.nf, x.cmx, x.epk, Slice(x.enc, 0, 52)>>)
MemoPart(x) == Slice(x.enc, 52, 512)
NoncompactPart(x) == Cat(<<x.cv, x.rk, Slice(x.enc, 564, 16), x.out>>)
TxidDigest(b) ==
  Blake(32, "ZTxIdOrchardHash", Cat(<<
     Blake(32, "ZTxIdOrcActCHash", CatEach(CompactPart, b.acts)),
     Blake(32, "ZTxIdOrcActMHash", CatEach(MemoPart, b.acts)),
     Blake(32, "ZTxIdOrcActNHash", CatEach(NoncompactPart, b.acts)),
     b.flags, b.vb, b.anchor>>))
TxidEmpty == Blake(32, "ZTxIdOrchardHash", Empty)
AuthDigest(proof, sigs, bsig) ==
  Blake(32, "ZTxAuthOrchaHash", Cat(<<proof>> \o sigs \o <<bsig>>))
AuthEmpty == Blake(32, "ZTxAuthOrchaHash", Empty)
=============================================================================
