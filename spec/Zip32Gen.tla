------------------------------ MODULE Zip32Gen ------------------------------
EXTENDS Zip32, TLC, Json, CSV, IOUtils
VARIABLES ask, xsk, path, hist
gvars == <<ask, xsk, path, hist>>
View == <<ask, xsk, path>>

\* Seeds of every admissible kind of length, some extending another.
Seeds == {V("seed32"), V("seed33"), V("seed64"), V("seed251"), V("seed252"), Cat(<<V("seed32"), L(<<0>>)>>)}
Coins == {L(<<0, 0, 0, 0>>), L(<<1, 0, 0, 0>>), L(<<133, 0, 0, 0>>), L(<<255, 255, 255, 127>>), L(<<4, 3, 2, 1>>),
          L(<<0, 0, 0, 128>>), L(<<133, 0, 0, 128>>), L(<<255, 255, 255, 255>>), V("coin.low"), V("coin.high")}
Accts == {L(<<0, 0, 0, 0>>), L(<<1, 0, 0, 0>>), L(<<255, 255, 255, 127>>), L(<<1, 2, 3, 4>>), L(<<0, 1, 0, 0>>),
          L(<<0, 0, 0, 1>>), L(<<133, 0, 0, 0>>), V("acct.any")}
Requests == [seed : Seeds, coin : Coins, acct : Accts]

\* A request is answered by walking down step by step.
Init == /\ ask \in Requests /\ xsk = [f |-> "none"] /\ path = <<>> /\ hist = <<>>
Start == /\ xsk.f = "none" /\ ~TooLarge(ask.coin) /\ xsk' = Master(ask.seed)
         /\ path' = <<L(Purpose), ask.coin, ask.acct>> /\ UNCHANGED <<ask, hist>>
Refuse == /\ xsk.f = "none" /\ TooLarge(ask.coin) /\ xsk' = [f |-> "refused"] /\ UNCHANGED <<ask, path>>
Descend == /\ path # <<>> /\ xsk' = Down(xsk, Head(path)) /\ path' = Tail(path) /\ UNCHANGED ask
Done == path' = <<>>
Next == Start \/ ((Refuse \/ Descend) /\ hist' = IF Done THEN << [op |-> "derive", seed |-> ask.seed, coin |-> ask.coin, acct |-> ask.acct,
              want |-> IF xsk'.f = "refused" THEN xsk' ELSE KeyOf(xsk')] >> ELSE hist)
Spec == Init /\ [][Next]_gvars
Emit == hist' # hist => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
Finished == hist # <<>>
\* The walk ends at the protocol's account key.
Exact == Finished => hist[1].want = Answer(ask)
Closed == (Finished /\ xsk.f # "refused" /\ ask.coin.f = "lit" /\ ask.acct.f = "lit") => hist[1].want = AccountKey(ask.seed, ask.coin.b, ask.acct.b)
\* Different requests have different keys.
Distinct == Finished => \A q \in Requests : (q # ask /\ ~TooLarge(q.coin)) => hist[1].want # Answer(q)
=============================================================================
