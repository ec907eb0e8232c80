------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* What bundles reveal.  Building draws an arrangement -- any placement of *)
(* the spends and, independently, any placement of the outputs -- and a    *)
(* fresh name for everything that is randomized: per action the randomized *)
(* key, value commitment, note commitment, ephemeral key, both             *)
(* ciphertexts, the seed of a real output's note, and the nullifier of a   *)
(* dummy spend.  Names are numbered in order of first appearance; the      *)
(* unrandomized forms (validating keys, commitments without trapdoor,      *)
(* requested notes' commitments and seeds) are names taken beforehand.     *)
(* A real spend reveals its one nullifier, written as minus its identity.  *)
(***************************************************************************)
EXTENDS Builder
VARIABLES next,     \* last name given out
          seen      \* what of the arrangements has occurred
fvars == <<bvars, next, seen>>

\* How many names an action takes.
Fields(a) == 6 + (IF a.s = 0 THEN 1 ELSE 0) + (IF a.o # 0 THEN 1 ELSE 0)
RECURSIVE Upto(_, _)
Upto(as, k) == IF k = 0 THEN 0 ELSE Upto(as, k - 1) + Fields(as[k])
\* What action k of a bundle shows, given the names already taken.
Shows(as, k, base) ==
  LET b == base + Upto(as, k - 1)
      d == IF as[k].s = 0 THEN 1 ELSE 0
  IN [nf |-> IF as[k].s = 0 THEN b + 1 ELSE -(spends[as[k].s].nid),
      rk |-> b + d + 1, cv |-> b + d + 2, cmx |-> b + d + 3, epk |-> b + d + 4, enc |-> b + d + 5, out |-> b + d + 6,
      seed |-> IF as[k].o = 0 THEN 0 ELSE b + d + 7]
Bundle(as, base) == [k \in 1..Len(as) |-> Shows(as, k, base)]

N == NumActions(t, Len(spends), Len(outputs))
Arrangements == Injections(Len(spends), N) \X Injections(Len(outputs), N)
\* In a wide bundle arrangements are too many to see all: there, what is watched is where each
\* spend and each output goes, which pairs share an action, and which output precedes which.
Narrow == N <= 5
Facts(fs, fo) ==
  IF Narrow THEN {<<fs, fo>>}
  ELSE {<<"spend", i, fs[i]>> : i \in 1..Len(fs)} \cup {<<"output", j, fo[j]>> : j \in 1..Len(fo)}
       \cup {<<"together", p[1], p[2]>> : p \in {q \in (1..Len(fs)) \X (1..Len(fo)) : fs[q[1]] = fo[q[2]]}}
       \cup {<<"before", p[1], p[2]>> : p \in {q \in (1..Len(fo)) \X (1..Len(fo)) : fo[q[1]] < fo[q[2]]}}
AllFacts ==
  IF Narrow THEN Arrangements
  ELSE LET ns == Len(spends)  no == Len(outputs) IN
       ({"spend"} \X (1..ns) \X (1..N)) \cup ({"output"} \X (1..no) \X (1..N)) \cup ({"together"} \X (1..ns) \X (1..no))
       \cup {<<"before", p[1], p[2]>> : p \in {q \in (1..no) \X (1..no) : q[1] # q[2]}}
Placed(fs, fo) == LET ps == Place(fs, Len(spends), N)  po == Place(fo, Len(outputs), N) IN [a \in 1..N |-> [s |-> ps[a], o |-> po[a]]]
FNew(ty, ss, os, base) == t = ty /\ spends = ss /\ outputs = os /\ phase = "open" /\ acts = <<>> /\ next = base /\ seen = {}
FBuild(fs, fo) ==
  /\ <<fs, fo>> \in Arrangements
  /\ acts' = Placed(fs, fo)
  /\ next' = next + Upto(acts', N)
  /\ seen' = seen \cup Facts(fs, fo)
  /\ UNCHANGED <<t, spends, outputs, phase>>
\* The names the bundle just built shows.
Names(as, base) == LET b == Bundle(as, base) IN UNION {{b[k].rk, b[k].cv, b[k].cmx, b[k].epk, b[k].enc, b[k].out} \cup (IF b[k].nf > 0 THEN {b[k].nf} ELSE {}) \cup (IF b[k].seed > 0 THEN {b[k].seed} ELSE {}) : k \in 1..Len(as)}
=============================================================================
