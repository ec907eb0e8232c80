------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* The library as something that is asked questions.  A question names a   *)
(* function and, for each of its arguments, which of two neighbouring      *)
(* values it is given.  The answer depends on nothing else: not on what    *)
(* was asked before, nor on what other threads are asking.  What arguments *)
(* an answer depends on is written as an abstract answer; the concrete     *)
(* answers of one function correspond to its abstract ones one to one.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The number of arguments of every function.  A viewing key is given by its parts ak, nk and
\* rivk, an address by its diversifier and its transmission key, a note by address, value, rho
\* and seed, an action by its nullifier, key, commitment, value commitment, ephemeral key, note
\* ciphertext (compact part, memo, tag) and outgoing ciphertext.
Arity == [ zip32 |-> 3,      \* seed, coin, account -> spending key
           fvk |-> 1,        \* spending key
           ivk |-> 4,        \* viewing key, scope
           ovk |-> 4,
           addr |-> 5,       \* viewing key, scope, index
           daddr |-> 5,      \* viewing key, scope, diversifier
           iaddr |-> 3,      \* dk, ivk, index
           index |-> 5,      \* (viewing key as a whole, scope) asked about the address of (viewing key, scope, index)
           scope |-> 4,      \* viewing key asked about the address of (viewing key, scope, index)
           cm |-> 5,         \* note
           nf |-> 8,         \* viewing key; note
           root |-> 5,       \* position, leaf, siblings at the bottom, at some level and at the top
           node |-> 3,       \* level, left, right
           cv |-> 2,         \* value, trapdoor
           rk |-> 2,         \* key, randomizer
           verify |-> 6,     \* key, randomizer, message; signature made with key, randomizer, message
           full |-> 5,       \* incoming key asked about nullifier, commitment, ephemeral key, note ciphertext
           compact |-> 5,
           scan |-> 2,       \* incoming key asked about a bundle
           out |-> 7,        \* outgoing key asked about value commitment, nullifier, commitment, ephemeral key, both ciphertexts
           tx |-> 12,        \* the parts of an action, flags, balance, anchor
           auth |-> 3,       \* spend signature, proof, binding signature
           bvk |-> 3,        \* two value commitments, balance
           proof |-> 2,      \* instances, proof
           batch |-> 4,      \* bundle, proof, signatures for a sighash, sighash
           build |-> 6 ]     \* anchor, recipient, value, outgoing key or none, memo, generator
Functions == DOMAIN Arity
\* Of functions of many arguments only the questions in which all but at most two are alike.
Args(n) == IF n <= 6 THEN [1..n -> 1..2]
           ELSE UNION {{[i \in 1..n |-> IF i \in {j, k} THEN 3 - v ELSE v] : j \in 1..n, k \in 1..n} : v \in 1..2} \cup {[i \in 1..n |-> v] : v \in 1..2}
QuestionsOf == [f \in Functions |-> {[f |-> f, a |-> a] : a \in Args(Arity[f])}]
Questions == UNION {QuestionsOf[f] : f \in Functions}
None == <<0>>
Yes == <<1>>
Alike(a) == \A i \in DOMAIN a : a[i] = a[1]
Abs(q) == LET a == q.a IN
  CASE q.f = "index" -> IF a[1] = a[3] /\ a[2] = a[4] THEN <<a[5]>> ELSE None
    [] q.f = "scope" -> IF a[1] = a[2] THEN <<a[3]>> ELSE None
    [] q.f = "nf" -> <<a[2], a[4], a[5], a[6], a[7], a[8]>>     \* of the viewing key only nk matters
    [] q.f = "verify" -> IF a[1] = a[4] /\ a[2] = a[5] /\ a[3] = a[6] THEN Yes ELSE None
    [] q.f \in {"full", "compact", "scan", "out"} -> IF Alike(a) THEN <<a[1]>> ELSE None
    [] q.f = "proof" -> IF a[1] = a[2] THEN Yes ELSE None
    [] q.f = "batch" -> IF a[1] = a[2] /\ a[3] = a[4] THEN Yes ELSE None
    [] OTHER -> a
Verdicts == {"verify", "proof", "batch"}
Answers(q) == IF Abs(q) = None THEN {"none"} ELSE IF q.f \in Verdicts THEN {"yes"} ELSE STRING

VARIABLE known      \* the questions answered so far, with their answers, by function
Begin == known = [f \in Functions |-> {}]
Consistent(q, x) == /\ (Abs(q) = None <=> x = "none") /\ (q.f \in Verdicts => x \in {"yes", "none"})
                    /\ \A k \in known[q.f] : Abs(k.q) = Abs(q) <=> k.x = x
Ask(q, x) == Consistent(q, x) /\ known' = [known EXCEPT ![q.f] = @ \cup {[q |-> q, x |-> x]}]
=============================================================================
