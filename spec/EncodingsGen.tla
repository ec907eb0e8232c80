--------------------------- MODULE EncodingsGen ---------------------------
EXTENDS Encodings, TLC, Json, CSV, IOUtils
VARIABLES fmt, cls, hist
gvars == <<fmt, cls, hist>>
Init == fmt \in DOMAIN Formats /\ cls = <<>> /\ hist = <<>>
\* Fields are chosen one by one; a complete choice is a case.
Next == /\ Len(cls) < Len(Formats[fmt])
        /\ \E c \in ClassesOf(Formats[fmt][Len(cls) + 1].kind) : cls' = Append(cls, c)
        /\ fmt' = fmt
        /\ hist' = << [op |-> "parse", fmt |-> fmt, cls |-> cls'] >>
Spec == Init /\ [][Next]_gvars
Emit == Len(cls') = Len(Formats[fmt]) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)
\* A case is accepted by at most the canonical classes: rejecting one field rejects the whole.
Sound == \A i \in 1..Len(cls) : (Len(cls) = Len(Formats[fmt]) /\ Accepts(fmt, cls)) => cls[i] \in Formats[fmt][i].ok
\* No accepted class of a number has two representations: every class at or above the modulus is refused.
Canonical == /\ BaseOK \cap {"p", "btw", "qm1", "q", "over", "top"} = {}
             /\ ScalarOK \cap {"q", "over", "top"} = {}
             /\ PointAny \cap {"idsign", "off", "offsign", "alias", "aliassign", "aliasid", "high"} = {}
=============================================================================
