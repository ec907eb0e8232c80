------------------------------ MODULE LedgerGen ------------------------------
(***************************************************************************)
(* Explored exhaustively for small histories (LedgerMC.cfg), and simulated *)
(* for the behaviours replayed into the crate (LedgerGen*.cfg).            *)
(***************************************************************************)
EXTENDS Ledger, TLC, Json, CSV, IOUtils
CONSTANTS MaxMade, MaxSteps, Values, Simulated
VARIABLES hist, tried
gvars == <<lvars, hist, tried>>
Init == LInit /\ hist = <<>> /\ tried = {}
Scopes == {"ext", "int"}
Room == Len(hist) < MaxSteps
H(c) == hist' = Append(hist, c)
O(p, s, v) == [to |-> p, scope |-> s, v |-> v]
Outs == {<<O(p, s, v)>> : p \in Parties, s \in (IF Simulated THEN Scopes ELSE {"ext"}), v \in Values}
Outs2 == IF Simulated THEN {<<O(p, "ext", v), O(q, s, w)>> : p, q \in Parties, v, w \in Values, s \in Scopes} ELSE {}
Rec(who, kind, ss, os, root, cheat) == [op |-> "make", id |-> Len(made) + 1, who |-> who, kind |-> kind, ss |-> ss, os |-> os, root |-> root, cheat |-> cheat]
MakeAny(who, kind, ss, os, root, cheat) ==
  /\ Room /\ Len(made) < MaxMade /\ Make(who, kind, ss, os, root, cheat)
  /\ H(Rec(who, kind, ss, os, root, cheat)) /\ UNCHANGED tried

Live == {i \in 1..Len(notes) : i \notin spent}
Idle == \A i \in 1..Len(made) : \E x \in tried : x[1] = i        \* every bundle made has been submitted somehow
\* Minting.
Mint == (Simulated => Len(made) < 2) /\ \E os \in Outs \cup Outs2 : MakeAny("A", "cb", <<>>, os, height, "-")
\* Spending, one or two notes, at any past root, whether or not already spent.
SsOf(who) == {<<i>> : i \in 1..Len(notes)} \cup {<<i, j>> : i, j \in 1..Len(notes)}
Mine(who, ss) == \A i \in 1..Len(ss) : notes[ss[i]].owner = who
Pay == \E who \in Parties, os \in Outs \cup Outs2 \cup {<<>>}, root \in 0..height : \E ss \in SsOf(who) :
         (Simulated => \A i \in 1..Len(ss) : ss[i] \in Live) /\ (Len(ss) = 2 => ss[1] # ss[2]) /\ MakeAny(who, "tx", ss, os, root, "-")
Pay2 == Pay
Double == \E who \in Parties, os \in Outs, root \in 0..height : \E ss \in SsOf(who) :
         ((\E i \in 1..Len(ss) : ss[i] \notin Live) \/ (Len(ss) = 2 /\ ss[1] = ss[2])) /\ MakeAny(who, "tx", ss, os, root, "-")
Cheat == \E who \in Parties, os \in Outs, root \in 0..height, x \in Cheats \ {"-"} : \E i \in Live : MakeAny(who, "tx", <<i>>, os, root, x)
\* Submitting.
\* (A bundle of one action has no other order, and nothing left without it.)
NActs(b) == IF b.kind = "cb" THEN Len(b.c.os) ELSE 2
Applies(b, x) == (x = "root" => height >= 1) /\ (x \in {"order", "drop"} => NActs(b) >= 2)
Sub(i, x) == LET ok == Accepts(Tampered(made[i], x)) IN
  Room /\ Submit(i, x, ok) /\ H([op |-> "submit", id |-> i, tamper |-> x]) /\ tried' = tried \cup {<<i, x>>}
Subs == IF Simulated THEN {i \in 1..Len(made) : made[i].c.id \notin inchain} ELSE 1..Len(made)
Honest == \E i \in Subs : <<i, "-">> \notin tried /\ Sub(i, "-")
Attack1 == \E i \in Subs, x \in Tampers \ {"-"} : <<i, x>> \notin tried /\ Applies(made[i], x) /\ Sub(i, x)
Attack2 == \E i \in Subs, x \in Tampers \ {"-"} : <<i, x>> \notin tried /\ Applies(made[i], x) /\ Sub(i, x)
Replay == \E i \in 1..Len(made) : made[i].c.id \in inchain /\ <<i, "again2">> \notin tried /\ LET ok == Accepts(made[i]) IN
  Room /\ Submit(i, "-", ok) /\ H([op |-> "submit", id |-> i, tamper |-> "-"]) /\ tried' = tried \cup {<<i, "again2">>}
Honest2 == Honest
Honest3 == Honest
End == Simulated /\ ~Room /\ hist # <<>> /\ hist[Len(hist)].op # "end" /\ H([op |-> "end"]) /\ UNCHANGED <<lvars, tried>>
Next == Mint \/ Pay2 \/ Pay \/ Double \/ Cheat \/ Honest \/ Honest2 \/ Honest3 \/ Attack1 \/ Attack2 \/ Replay \/ End
Spec == Init /\ [][Next]_gvars
Emit == (Simulated /\ hist'[Len(hist')].op = "end") => CSVWrite("%1$s", <<ToJson(SubSeq(hist', 1, Len(hist') - 1))>>, IOEnv.OUT)
View == <<lvars, Len(hist)>>
\* Rejection changes nothing.
Unmoved == [][made' = made /\ inchain' = inchain => <<notes, spent, pool, height, log>>' = <<notes, spent, pool, height, log>>]_gvars
=============================================================================
