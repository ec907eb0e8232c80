------------------------------ MODULE AuthGen ------------------------------
EXTENDS Auth, TLC, Json, CSV, IOUtils
CONSTANTS Layouts, Keys, Hashes, LateLayouts, MaxList
VARIABLES hist, late,
          fl       \* the bundle's flags: an effect, like the layout
gvars == <<lay, proof, ph, h, why, hist, late, fl>>
View == <<lay, proof, ph, h, why, late, fl>>

\* Flags a bundle of this layout can have: spends need spends enabled; where outputs are
\* disabled none are requested.
FlagsOf(la) == IF \A i \in 1..Len(la) : la[i].owner = "dummy" THEN {"both", "nospend", "noout", "neither"}
               ELSE IF \E i \in 1..Len(la) : la[i].owner = "dummy" \/ Len(la) > 2 THEN {"both", "noout"} ELSE {"both"}
Init == \E la \in Layouts : \E f \in FlagsOf(la) :
          Start(la) /\ late = FALSE /\ fl = f /\ hist = << [op |-> "new", layout |-> la, flags |-> f] >>
Step(c) == hist' = Append(hist, c) /\ fl' = fl

\* Every signature worth offering: for each slot and sighash, a foreign one, a bent one.
Sigs == {[key |-> lay[i].owner, slot |-> i, rk |-> lay[i].rk, h |-> hh, form |-> "good"] : i \in Slots, hh \in Hashes}
   \cup {[key |-> "X", slot |-> 1, rk |-> 0, h |-> "h1", form |-> "foreign"],
         [key |-> lay[1].owner, slot |-> 1, rk |-> lay[1].rk, h |-> "h1", form |-> "bentR"],
         [key |-> lay[1].owner, slot |-> 1, rk |-> lay[1].rk, h |-> "h1", form |-> "bentS"],
         [key |-> lay[1].owner, slot |-> 1, rk |-> lay[1].rk, h |-> "h1", form |-> "unrandomized"],
         [key |-> "-", slot |-> 1, rk |-> 0, h |-> "h1", form |-> "binding"]}
Plain == {x \in Sigs : x.h = "h1" /\ x.form \in {"good", "foreign"} /\ x.key # "dummy"}
Lists == {<<>>} \cup {<<a>> : a \in Sigs}
   \cup (IF MaxList >= 2 THEN {<<a, b>> : a \in {x \in Sigs : x.h = "h1"}, b \in {x \in Sigs : x.h = "h1"}} \cup [1..3 -> Plain]
                               ELSE [1..2 -> Plain])
KeyLists == {<<>>} \cup {<<a>> : a \in Keys} \cup {<<a, b>> : a \in Keys, b \in Keys}

NProve == Prove /\ (ph = "partial" => h = "h1" /\ lay \in LateLayouts /\ fl = "both" /\ (AllSigned \/ ~\E i \in Slots : why[i] \in {"key", "ext"}))
          /\ late' = (ph = "partial") /\ Step([op |-> "prove"])
NPrepare == \E hh \in Hashes : Prepare(hh) /\ UNCHANGED late /\ Step([op |-> "prepare", h |-> hh])
NSign == ~late /\ \E k \in Keys : Sign(k) /\ UNCHANGED late /\ Step([op |-> "sign", key |-> k])
NAppend == ~late /\ h = "h1" /\ \E ss \in Lists : AppendSigs(ss) /\ UNCHANGED late /\ Step([op |-> "append", sigs |-> ss])
NFinalize == Finalize /\ UNCHANGED late /\ Step([op |-> "finalize"])
NApply == \E hh \in Hashes, ks \in KeyLists : Apply(hh, ks) /\ UNCHANGED late /\ Step([op |-> "apply", h |-> hh, keys |-> ks])
NRetype == ~late /\ \E ok \in BOOLEAN, what \in {"auth", "try_auth", "value", "twins"} :
      (what \in {"auth", "twins"} => ok) /\ Retype(ok) /\ UNCHANGED late /\ Step([op |-> "retype", what |-> what, ok |-> ok])

Next == NProve \/ NPrepare \/ NSign \/ NAppend \/ NFinalize \/ NApply \/ NRetype
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
MonotoneG == [][/\ lay' = lay
               /\ (h # "-" => h' = h)
               /\ \A i \in Slots : Signed(i) => why'[i] = why[i]
               /\ (ph \in {"final"} => ph' \in {"final", "failed"})]_gvars

Sl(o, k) == [owner |-> o, rk |-> k]
LQuick == { << Sl("A", 1), Sl("dummy", 2) >>,
            << Sl("A", 1), Sl("B", 2) >>,
            << Sl("A", 1), Sl("A", 2) >>,
            << Sl("A", 1), Sl("A", 1) >>,
            << Sl("dummy", 1), Sl("dummy", 2) >>,
            << Sl("A", 1), Sl("B", 2), Sl("A", 3) >>,
            << Sl("A", 1), Sl("A", 1), Sl("B", 2) >> }
LLate == { << Sl("A", 1), Sl("dummy", 2) >> }
LThorough == LQuick \cup { << Sl("A", 1), Sl("B", 2), Sl("C", 3) >>,
            << Sl("A", 1), Sl("A", 1), Sl("A", 1) >>,
            << Sl("A", 1), Sl("B", 2), Sl("dummy", 3) >>,
            << Sl("A", 1), Sl("B", 2), Sl("A", 3), Sl("B", 4) >> }
LLateT == { << Sl("A", 1), Sl("dummy", 2) >>, << Sl("A", 1), Sl("B", 2) >>, << Sl("dummy", 1), Sl("dummy", 2) >> }
=============================================================================
