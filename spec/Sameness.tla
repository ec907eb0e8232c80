------------------------------ MODULE Sameness ------------------------------
(***************************************************************************)
(* When two values are the same.  A value is its type and its components;  *)
(* how it came about (derived, parsed, copied, computed) is no part of it. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The components of every type, and how many values of each are tried.
Shape == [ sk |-> <<4>>,             \* bytes
           fvk |-> <<2, 2, 2>>,      \* spend validating key, nullifier key, commitment randomness
           ivk |-> <<2, 3>>,         \* diversifier key, scalar
           svk |-> <<4>>,            \* the point
           vkey |-> <<4>>,           \* the point
           bkey |-> <<4>>,
           div |-> <<3>>,
           addr |-> <<2, 3>>,        \* diversifier, point
           nf |-> <<4>>, rho |-> <<4>>, cmx |-> <<4>>, hash |-> <<4>>, anchor |-> <<4>>,
           value |-> <<4>>,
           sum |-> <<5>>,
           note |-> <<2, 2, 2, 2>>,  \* address, value, rho, seed
           flags |-> <<2, 2>>,       \* spends, outputs
           type |-> <<2, 2, 2, 2>> ] \* coinbase or not; spends, outputs, required
Types == DOMAIN Shape
Values(t) == {c \in [1..Len(Shape[t]) -> 1..5] : \A i \in 1..Len(Shape[t]) : c[i] <= Shape[t][i]}
\* A coinbase type has nothing else to it.
Id(t, c) == IF t = "type" /\ c[1] = 2 THEN <<2>> ELSE c
Same(t, x, y) == Id(t, x) = Id(t, y)
Ordered == {"fvk", "ivk", "svk", "vkey", "bkey", "nf", "rho", "hash"}
Constant == {"sk", "nf", "cmx"}       \* compared in constant time (too)
Plain == Types \ {"sk"}
Routes == {"parsed", "made", "copied"}

\* cmp[i][j] is -1, 0 or 1.
Total(t, objs, cmp) == LET I == 1..Len(objs) IN
   /\ \A i, j \in I : cmp[i][j] = -cmp[j][i] /\ (cmp[i][j] = 0 <=> Same(t, objs[i], objs[j]))
   /\ \A i, j, k \in I : cmp[i][j] = -1 /\ cmp[j][k] = -1 => cmp[i][k] = -1

VARIABLE seen      \* classes of values found to be the same, per type
Begin == seen = {}
Compare(t, x, y, eq) == eq = Same(t, x, y) /\ seen' = seen \cup (IF eq THEN {<<t, x, y>>} ELSE {})
=============================================================================
