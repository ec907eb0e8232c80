---------------------------- MODULE StatementGen ----------------------------
EXTENDS Statement, FiniteSets, Json, CSV, IOUtils
CONSTANTS Tier
VARIABLES w, p, n, done
gvars == <<w, p, n, done>>

Vals == {W0, W1, W(1000), WMaxU64}
Base == [vo |-> W(1000), vn |-> W1, scope |-> "ext", path |-> "good", pos |-> "rand", alpha |-> "rand", rcv |-> "rcv", rho |-> "nf", es |-> TRUE, eo |-> TRUE]
Alts == [vo |-> Vals, vn |-> Vals, scope |-> {"ext", "int"}, path |-> {"good", "bad"}, pos |-> {"zero", "ones", "rand"},
         alpha |-> {"rand", "zero", "unask"}, rcv |-> {"rcv", "zero"}, rho |-> {"nf", "bit", "neg", "old", "other"}, es |-> BOOLEAN, eo |-> BOOLEAN]
Single(x) == UNION {{[x EXCEPT ![f] = a] : a \in Alts[f]} : f \in DOMAIN Alts}
Zero == [Base EXCEPT !.vo = W0, !.vn = W0, !.path = "bad", !.es = FALSE, !.eo = FALSE]
Corner == [Base EXCEPT !.vo = WMaxU64, !.vn = WMaxU64, !.scope = "int", !.pos = "ones", !.rcv = "zero", !.alpha = "unask"]
Flags == {[Base EXCEPT !.vo = a, !.vn = b, !.es = e, !.eo = o, !.path = q] : a \in {W0, W1}, b \in {W0, W1}, e \in BOOLEAN, o \in BOOLEAN, q \in {"good", "bad"}}
Values == {[Base EXCEPT !.vo = a, !.vn = b] : a \in Vals, b \in Vals}
Randomizers == {[Base EXCEPT !.rcv = "zero", !.vo = a, !.vn = a, !.alpha = x] : a \in {W0, WMaxU64}, x \in {"zero", "unask"}}
Pairs(x) == UNION {Single(y) : y \in Single(x)}
Witnesses == IF Tier = "thorough" THEN Pairs(Base) \cup Pairs(Zero) \cup Pairs(Corner) \cup Flags \cup Values \cup Randomizers
             ELSE Single(Base) \cup Single(Zero) \cup Single(Corner) \cup Flags \cup Values \cup Randomizers
Tampered == IF Tier = "thorough" THEN {Base, Zero, Corner, [Base EXCEPT !.vn = WMaxU64, !.scope = "int"], [Base EXCEPT !.path = "bad"], [Zero EXCEPT !.alpha = "zero"]}
            ELSE {Base, Zero, [Base EXCEPT !.path = "bad"]}
MaxTamper == IF Tier = "thorough" THEN 2 ELSE 1

Init == w \in Witnesses /\ p = Honest(w) /\ n = 0 /\ done = FALSE
Opp(r) == IF r = "zero" THEN "zero" ELSE "minus"
CvAlts(c) == {[c EXCEPT !.v = WAdd(c.v, W1)], [c EXCEPT !.v = WSub(c.v, W1)], [c EXCEPT !.v = WNeg(c.v)], [c EXCEPT !.r = "other"],
              [v |-> WNeg(c.v), r |-> Opp(c.r)], [c EXCEPT !.v = w.vo], [c EXCEPT !.v = WNeg(w.vn)]}
Change(f, a) == a # p[f] /\ p' = [p EXCEPT ![f] = a]
Tamper == /\ ~done /\ n < MaxTamper /\ w \in Tampered /\ Assembled(w)
          /\ \/ \E a \in {"root", "bad", "other"} : Change("anchor", a)
             \/ p.cv = CvOf(w) /\ \E c \in CvAlts(p.cv) : Change("cv", c)
             \/ \E a \in {"old", "new", "otherkey", "rho"} : Change("nf", a)
             \/ \E a \in {"rk", "ak", "minus", "other", "otherkey"} : (a = "rk" => w.alpha = "rand") /\ (a = "minus" => w.alpha # "unask") /\ Change("rk", a)
             \/ \E a \in {"new", "old", "seed", "value", "rho"} : Change("cmx", a)
             \/ \E a \in BOOLEAN : Change("es", a)
             \/ \E a \in BOOLEAN : Change("eo", a)
          /\ n' = n + 1 /\ UNCHANGED <<w, done>>
Prove == ~done /\ done' = TRUE /\ UNCHANGED <<w, p, n>>
Next == Tamper \/ Prove
Spec == Init /\ [][Next]_gvars

\* A proof by the real prover takes long: for the bases and what is next to them.
Near == {Base, Zero, Corner}
How == IF (w \in Near /\ (n = 0 \/ (n = 1 /\ w = Base))) \/ (Tier = "thorough" /\ n = 0 /\ w \in Single(Base)) THEN "real" ELSE "mock"
Emit == done' => CSVWrite("%1$s", <<ToJson(<<[op |-> "prove", w |-> w, p |-> p, how |-> How, terms |-> IF Assembled(w) THEN Terms(w, p) ELSE [none |-> "none"]]>>)>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* Money: a proven action balances, and what it moves is authorized by its flags.
Sound == True(w, p) => /\ p.cv.v = WSub(w.vo, w.vn)
                       /\ (~p.es => w.vo = W0) /\ (~p.eo => w.vn = W0)
                       /\ (p.anchor # RootOf(w) => w.vo = W0)
\* With both flags on and a good path everything goes.
Complete == (n = 0 /\ Assembled(w) /\ w.es /\ w.eo /\ w.path = "good") => True(w, p)
\* Only the anchor of a zero-valued spend, and the flags, can be altered in a true statement.
Binding == (n = 1 /\ True(w, p)) => /\ p.cv = Honest(w).cv /\ p.nf = "old" /\ p.rk = RkOf(w) /\ p.cmx = "new"
                                    /\ (p.anchor # "root" => (w.vo = W0 \/ w.path = "bad"))
=============================================================================
