-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Exact signed integers beyond TLC's 32-bit range.  A wide integer is a   *)
(* triple <<a, b, c>> of integers denoting a + b*2^24 + c*2^48 with        *)
(* 0 <= a, b < 2^24 and c any (signed) TLC integer, so values up to about  *)
(* +-2^79 are represented uniquely.  Zcash values are 64 bits wide.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL B == 16777216        \* 2^24

WNorm(a, b, c) ==
  LET b1 == b + (a \div B) IN << a % B, b1 % B, c + (b1 \div B) >>

W(n) == WNorm(n, 0, 0)
W0 == W(0)
W1 == W(1)

WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
WNeg(x) == WNorm(-x[1], -x[2], -x[3])
WSub(x, y) == WAdd(x, WNeg(y))

WLe(x, y) ==
  \/ x[3] < y[3]
  \/ x[3] = y[3] /\ x[2] < y[2]
  \/ x[3] = y[3] /\ x[2] = y[2] /\ x[1] <= y[1]
WLt(x, y) == WLe(x, y) /\ x # y

RECURSIVE WSum(_)
WSum(s) == IF s = <<>> THEN W0 ELSE WAdd(Head(s), WSum(Tail(s)))

\* Boundary constants.  2^63 = 2^15 * 2^48, 2^64 = 2^16 * 2^48.
W2p63 == <<0, 0, 32768>>
W2p64 == <<0, 0, 65536>>
WMaxU64 == WSub(W2p64, W1)
WMinusMaxU64 == WNeg(WMaxU64)
WMaxI64 == WSub(W2p63, W1)
WMinI64 == WNeg(W2p63)
WMaxMoney == <<475136, 7729242, 7>>      \* 21_000_000 * 10^8

FitsU64(x) == WLe(W0, x) /\ WLe(x, WMaxU64)
FitsI64(x) == WLe(WMinI64, x) /\ WLe(x, WMaxI64)
FitsSum(x) == WLe(WMinusMaxU64, x) /\ WLe(x, WMaxU64)   \* the range of a value sum
FitsMoney(x) == WLe(WNeg(WMaxMoney), x) /\ WLe(x, WMaxMoney)
=============================================================================
