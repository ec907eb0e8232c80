-------------------------- MODULE EncodingsTrace --------------------------
EXTENDS Encodings, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1
Step == l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r
\* A parser's verdict on bytes of known classes, and what it writes back.
TParse == /\ Step /\ E.op = "parse"
          /\ E.ok = Accepts(E.fmt, E.cls)
          /\ E.ok => E.re = "same"
TFlags == /\ Step /\ E.op = "flags"
          /\ E.ok = FlagsAccepts(E.b)
          /\ E.ok => E.re = E.b /\ E.spends = (E.b % 2 = 1) /\ E.outputs = (E.b \div 2 = 1)
TLength == Step /\ E.op = "length" /\ E.ok = E.right
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED <<r, l>>
Next == TParse \/ TFlags \/ TLength \/ Done
Spec == Init /\ [][Next]_<<r, l>>
=============================================================================
