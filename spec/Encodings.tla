----------------------------- MODULE Encodings -----------------------------
(***************************************************************************)
(* Which byte strings each parser accepts.  An encoding is a sequence of   *)
(* fields; a field's bytes belong to exactly one class; a parser accepts   *)
(* exactly when every field's class is allowed, and gives the bytes back.  *)
(* p < q are the moduli of the base and scalar fields of Pallas.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* 32-byte little-endian numbers, by value.
NumClasses == {"zero", "small", "belowp",   \* 0, 1.., canonical in both fields
               "pm1",                       \* p-1
               "p",                         \* p itself
               "btw",                       \* between p+1 and q-2
               "qm1",                       \* q-1
               "q",                         \* q itself
               "over",                      \* q+1 .. 2^255-1
               "top"}                       \* bit 255 set
BaseOK == {"zero", "small", "belowp", "pm1"}
ScalarOK == BaseOK \cup {"p", "btw", "qm1"}
NonZero(c) == c \ {"zero"}

\* 32-byte point encodings: x in the low 255 bits, the sign of y in bit 255.
PointClasses == {"id",        \* all zero: the identity
                 "idsign",    \* x = 0 with the sign bit: no point has x = 0
                 "even", "odd",           \* a point, by the sign of its y
                 "off", "offsign",        \* canonical x, no such point
                 "alias", "aliassign",    \* x + p for the x of a point
                 "aliasid",               \* p: the identity's x, not canonical
                 "high"}                  \* x >= 2p
PointAny == {"id", "even", "odd"}
PointNonId == {"even", "odd"}
PointEven == {"even"}

Any == {"any"}
Fld(n, kind, ok) == [name |-> n, kind |-> kind, ok |-> ok]

Formats == [
  fvk     |-> << Fld("ak", "point", PointEven), Fld("nk", "num", BaseOK), Fld("rivk", "num", ScalarOK) >>,
  fvk_io  |-> << Fld("ak", "point", PointEven), Fld("nk", "num", BaseOK), Fld("rivk", "num", ScalarOK) >>,
  fvk_bits |-> << Fld("ak", "point", PointEven), Fld("nk", "num", BaseOK), Fld("rivk", "num", ScalarOK) >>, \* piece by piece
  ivk     |-> << Fld("dk", "any", Any), Fld("ivk", "num", NonZero(BaseOK)) >>,
  ak      |-> << Fld("ak", "point", PointEven) >>,
  addr    |-> << Fld("d", "any11", Any), Fld("pkd", "point", PointNonId) >>,
  nf      |-> << Fld("nf", "num", BaseOK) >>,
  rho     |-> << Fld("rho", "num", BaseOK) >>,
  cmx     |-> << Fld("cmx", "num", BaseOK) >>,
  anchor  |-> << Fld("anchor", "num", BaseOK) >>,
  mhash   |-> << Fld("h", "num", BaseOK) >>,
  mserde  |-> << Fld("h", "num", BaseOK) >>,
  cv      |-> << Fld("cv", "point", PointAny) >>,
  rcv     |-> << Fld("rcv", "num", ScalarOK) >>,
  sk_spend |-> << Fld("s", "num", ScalarOK) >>,
  sk_bind |-> << Fld("s", "num", ScalarOK) >>,
  vk_spend |-> << Fld("p", "point", PointAny) >>,
  vk_bind |-> << Fld("p", "point", PointAny) >> ]

ClassesOf(kind) == CASE kind = "num" -> NumClasses [] kind = "point" -> PointClasses [] OTHER -> {"any"}
Accepts(fmt, cls) == \A i \in 1..Len(Formats[fmt]) : cls[i] \in Formats[fmt][i].ok

\* The flags byte: two flags, the rest reserved.
FlagsAccepts(b) == b \in 0..3

\* Parsing consumes exactly the encoding: other lengths are refused.
=============================================================================
