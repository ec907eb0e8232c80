------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Constructing an Orchard bundle: requests to spend notes and to create   *)
(* outputs are collected under the rules of a bundle type, and turned into *)
(* a bundle whose actions carry every request once plus dummies.           *)
(*                                                                         *)
(* A spend request is a record                                             *)
(*   [nid   |-> identity of the note (0 is reserved for dummies),          *)
(*    owner |-> party whose address holds the note ("-" if nobody's),      *)
(*    scope |-> "ext" or "int",                                            *)
(*    key   |-> party whose full viewing key accompanies the request,      *)
(*    v     |-> wide value,                                                *)
(*    path  |-> "good" if the path leads to the builder's anchor]          *)
(* An output request is                                                    *)
(*   [to, scope, idx, v, memo, ovk].                                       *)
(* A bundle type is [kind |-> "tx"|"cb", flags |-> 0..3, req |-> BOOLEAN]; *)
(* flag bit 0 enables spends and bit 1 enables outputs.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Wide

VARIABLES t,        \* the bundle type
          spends,   \* admitted spend requests, in order
          outputs,  \* admitted output requests, in order
          phase,    \* "open", "none", "failed", "built"
          acts      \* once built: the actions, [s |-> 0..., o |-> 0...] (0 = dummy)

bvars == <<t, spends, outputs, phase, acts>>

SpendsOn(ty)  == ty.flags \in {1, 3}
OutputsOn(ty) == ty.flags \in {2, 3}
MinActions == 2
Max(a, b) == IF a >= b THEN a ELSE b

TxTypes == [kind : {"tx"}, flags : 0..3, req : BOOLEAN]
CoinbaseType == [kind |-> "cb", flags |-> 2, req |-> FALSE]
AllTypes == TxTypes \cup {CoinbaseType}

---------------------------------------------------------------------------
(* Admission.  All reasons that apply to a request; the implementation     *)
(* reports one of them, and admits the request exactly when there is none. *)
SpendReasons(ty, r) ==
       (IF ~SpendsOn(ty) THEN {"SpendsDisabled"} ELSE {})
  \cup (IF r.key # r.owner THEN {"FvkMismatch"} ELSE {})
  \cup (IF r.v # W0 /\ r.path # "good" THEN {"AnchorMismatch"} ELSE {})

SpendResults(ty, r) == IF SpendReasons(ty, r) = {} THEN {"Ok"} ELSE SpendReasons(ty, r)
OutputResults(ty) == IF OutputsOn(ty) THEN {"Ok"} ELSE {"OutputsDisabled"}

Admissible(ty, r) == SpendReasons(ty, r) = {}

---------------------------------------------------------------------------
(* Shape.  -1 : the request cannot be satisfied by this type.              *)
NumActions(ty, ns, no) ==
  IF ns > 0 /\ ~SpendsOn(ty) THEN -1
  ELSE IF no > 0 /\ ~OutputsOn(ty) THEN -1
  ELSE IF ty.kind = "cb" THEN no
  ELSE IF ty.req \/ ns > 0 \/ no > 0 THEN Max(Max(ns, no), MinActions)
  ELSE 0

---------------------------------------------------------------------------
(* Money.                                                                  *)
ValuesOf(s) == [i \in 1..Len(s) |-> s[i].v]
Net(ss, os) == WSub(WSum(ValuesOf(ss)), WSum(ValuesOf(os)))

\* Amount types a caller can ask for.
Fits(vt, x) == CASE vt = "i64"    -> FitsI64(x)
                 [] vt = "amt"    -> FitsI64(x) /\ FitsMoney(x)
                 [] vt = "nonneg" -> FitsI64(x) /\ WLe(W0, x)
                 [] vt = "any"    -> TRUE    \* (when the amount is not the subject)

\* Every partial sum, in whatever order or pairing the requests are summed,
\* lies between -(sum of outputs) and (sum of spends).
AlwaysInRange(ss, os) == FitsSum(WSum(ValuesOf(ss))) /\ FitsSum(WSum(ValuesOf(os)))

BalanceResults(vt, ss, os) ==
  IF ~Fits(vt, Net(ss, os)) THEN {"overflow"}
  ELSE IF AlwaysInRange(ss, os) THEN {"ok"}
  ELSE {"ok", "overflow"}     \* a partial sum may leave the range: order dependent

---------------------------------------------------------------------------
(* Arrangements of requests over n actions.                                *)
Injections(k, n) == {f \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => f[i] # f[j]}

Place(f, k, n) == [a \in 1..n |-> IF \E i \in 1..k : f[i] = a
                                   THEN CHOOSE i \in 1..k : f[i] = a ELSE 0]

---------------------------------------------------------------------------
(* Transitions.                                                            *)
New(ty) == /\ t = ty /\ spends = <<>> /\ outputs = <<>> /\ phase = "open" /\ acts = <<>>

AddSpend(r, res) ==
  /\ phase = "open"
  /\ res \in SpendResults(t, r)
  /\ spends' = IF res = "Ok" THEN Append(spends, r) ELSE spends
  /\ UNCHANGED <<t, outputs, phase, acts>>

AddOutput(o, res) ==
  /\ phase = "open"
  /\ res \in OutputResults(t)
  /\ outputs' = IF res = "Ok" THEN Append(outputs, o) ELSE outputs
  /\ UNCHANGED <<t, spends, phase, acts>>

BuildOverflow(vt) ==
  /\ phase = "open"
  /\ "overflow" \in BalanceResults(vt, spends, outputs)
  /\ phase' = "failed"
  /\ UNCHANGED <<t, spends, outputs, acts>>

BuildNone(vt) ==
  /\ phase = "open"
  /\ NumActions(t, Len(spends), Len(outputs)) = 0
  /\ phase' = "none"
  /\ UNCHANGED <<t, spends, outputs, acts>>

\* fs, fo: where each spend and each output went.
BuildBundle(vt, fs, fo) ==
  LET n == NumActions(t, Len(spends), Len(outputs)) IN
  /\ phase = "open"
  /\ n > 0
  /\ "ok" \in BalanceResults(vt, spends, outputs)
  /\ fs \in Injections(Len(spends), n)
  /\ fo \in Injections(Len(outputs), n)
  /\ acts' = LET ps == Place(fs, Len(spends), n)
                 po == Place(fo, Len(outputs), n)
             IN [a \in 1..n |-> [s |-> ps[a], o |-> po[a]]]
  /\ phase' = "built"
  /\ UNCHANGED <<t, spends, outputs>>

---------------------------------------------------------------------------
(* The properties, as invariants of the design.                            *)
TypeOK == /\ t \in AllTypes
          /\ phase \in {"open", "none", "failed", "built"}

\* C01: nothing inadmissible is ever held.
OnlyAdmitted ==
  /\ \A i \in 1..Len(spends) : Admissible(t, spends[i])
  /\ Len(outputs) > 0 => OutputsOn(t)
  /\ t.kind = "cb" => spends = <<>>

\* C02: a built bundle carries every request exactly once.
ExactContents ==
  phase = "built" =>
    LET n == Len(acts) IN
    /\ n = NumActions(t, Len(spends), Len(outputs))
    /\ \A k \in 1..Len(spends)  : Cardinality({a \in 1..n : acts[a].s = k}) = 1
    /\ \A k \in 1..Len(outputs) : Cardinality({a \in 1..n : acts[a].o = k}) = 1
    /\ (t.kind = "tx" => n >= MinActions)
    /\ (t.kind = "cb" => \A a \in 1..n : acts[a].s = 0 /\ acts[a].o # 0)

\* C03: the sum over the actions (dummies count zero) is the net request.
ActionValue(a) == WSub(IF a.s = 0 THEN W0 ELSE spends[a.s].v,
                       IF a.o = 0 THEN W0 ELSE outputs[a.o].v)
Conserved ==
  phase = "built" =>
    WSum([a \in 1..Len(acts) |-> ActionValue(acts[a])]) = Net(spends, outputs)

=============================================================================
