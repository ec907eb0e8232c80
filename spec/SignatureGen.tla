---------------------------- MODULE SignatureGen ----------------------------
EXTENDS Signature, FiniteSets, SequencesExt, Json, CSV, IOUtils
CONSTANTS Depth, Whose, Alphas, Msgs,
          Copies,      \* how often an action is repeated
          FlagBytes
VARIABLES mode, hist, done
gvars == <<bun, cvs, bal, mode, hist, done>>
\* What does not matter to the key still makes a different bundle.
Aside == IF mode = "binding" THEN SelectSeq(hist, LAMBDA c : c.op \in {"flags", "anchor"}) ELSE <<>>
View == <<bun, cvs, bal, mode, Len(hist), Aside, done, IF mode # "binding" \/ done THEN hist ELSE <<>>>>

Keys == {Key(w, a) : w \in Whose, a \in Alphas}
Init == /\ done = FALSE
        /\ \/ mode = "spend" /\ Begin("a") /\ hist = <<>>
           \/ mode = "slots" /\ Begin("a") /\ hist = <<>>
           \/ mode = "binding" /\ \E b \in {"a", "c", "d"} : Begin(b) /\ hist = << [op |-> "bundle", b |-> b] >>
\* A signature by one key for one message, offered under every key for every message.
Offered == SetToSeq(Keys \X Msgs)
SpendSigs == {[key |-> k, msg |-> m, off |-> o] : k \in Keys, m \in Msgs, o \in {0, 1, 9}}
NSpend == /\ mode = "spend" /\ ~done /\ done' = TRUE
          /\ \E s \in SpendSigs :
               hist' = [i \in 1..Cardinality(Keys \X Msgs) |->
                  LET all == <<Offered>> IN
                  [op |-> "spend", sig |-> s, key |-> all[1][i][1], msg |-> all[1][i][2], lhs |-> Lhs(SpendAuthG), rhs |-> Rhs]]
          /\ UNCHANGED <<bun, cvs, bal, mode>>
\* The signatures within built bundles, each under every action's key.
Slots == {<<"a", 1>>, <<"a", 2>>, <<"d", 1>>, <<"d", 2>>, <<"d", 3>>, <<"c", 1>>}
NSlots == /\ mode = "slots" /\ ~done /\ done' = TRUE
          /\ \E i, j \in Slots, sh, h \in {"h1", "h2"} :
               hist' = << [op |-> "slot", sig |-> [key |-> i, msg |-> sh, off |-> 0], key |-> j, msg |-> h, lhs |-> Lhs(SpendAuthG), rhs |-> Rhs] >>
          /\ UNCHANGED <<bun, cvs, bal, mode>>
M == Len(hist) - 1
Go(c) == ~done /\ mode = "binding" /\ M < Depth /\ hist' = Append(hist, c) /\ UNCHANGED <<mode, done>>
NShift == \E i \in 1..3 : \E de \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} : Shift(i, de[1], de[2]) /\ Go([op |-> "shift", i |-> i, d |-> de[1], e |-> de[2]])
NSet == \E i \in 1..3 : i <= Len(cvs) /\
   \/ SetCv(i, Nothing(bun)) /\ Go([op |-> "set", i |-> i, to |-> "id"])
   \/ SetCv(i, Opposite(cvs[i])) /\ Go([op |-> "set", i |-> i, to |-> "neg"])
   \/ SetCv(i, [Nothing(bun) EXCEPT !.alien = 1]) /\ Go([op |-> "set", i |-> i, to |-> "alien"])
   \/ \E k \in 1..N(bun) : k # i /\ SetCv(i, Own(bun, k)) /\ Go([op |-> "set", i |-> i, to |-> "own", k |-> k])
   \/ \E k \in 1..Len(cvs) : k # i /\ SetCv(i, Plus(cvs[i], cvs[k])) /\ Go([op |-> "set", i |-> i, to |-> "plus", k |-> k])
NSwap == \E i, j \in 1..3 : Swap(i, j) /\ Go([op |-> "swap", i |-> i, j |-> j])
NDrop == \E i \in 1..3 : Drop(i) /\ Go([op |-> "drop", i |-> i])
NDup == \E i \in 1..3, k \in Copies : (k = 1 \/ i = 1) /\ Dup(i, k) /\ Go([op |-> "dup", i |-> i, k |-> k])
NFlags == \E f \in FlagBytes : Irrelevant /\ Go([op |-> "flags", f |-> f])
NAnchor == FlagBytes # {} /\ Irrelevant /\ Go([op |-> "anchor"])
Near == bal > -Far /\ bal < Far
NRebalance == Near /\ \/ \E k \in {1, -1} : Rebalance(k) /\ Go([op |-> "rebalance", k |-> k])
                      \/ \E w \in {"min", "max"} : Extreme(w) /\ Go([op |-> "extreme", w |-> w])
NBinding == /\ mode = "binding" /\ ~done /\ done' = TRUE /\ UNCHANGED <<bun, cvs, bal, mode>>
            /\ \E x \in (IF M <= 1 THEN {<<b, sh, h, o>> : b \in {"a", "c", "d"}, sh \in {"h1", "h2"}, h \in {"h1", "h2"}, o \in {0, 1, 9}}
                         ELSE {<<bun, "h1", "h1", 0>>}) :
                 hist' = Append(hist, [op |-> "binding", by |-> x[1], sh |-> x[2], h |-> x[3], off |-> x[4], lhs |-> Lhs(ValueR), rhs |-> Rhs])
Next == NSpend \/ NSlots \/ NShift \/ NSet \/ NSwap \/ NDrop \/ NDup \/ NFlags \/ NAnchor \/ NRebalance \/ NBinding
Spec == Init /\ [][Next]_gvars
Emit == done' => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* Money: what still verifies has the same commitments in sum and the same balance.
Conserved == (mode = "binding" /\ Bound /\ bal # 0) => Total(bun, cvs).d = bal
\* Order does not matter.
Reorder == [][\A i, j \in 1..3 : (mode = "binding" /\ Swap(i, j)) => Bound' = Bound]_gvars
SingleEdits == (mode = "binding" /\ ~done /\ M = 1 /\ Bound) => hist[2].op \in {"swap", "flags", "anchor"}
=============================================================================
