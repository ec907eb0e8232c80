---------------------------- MODULE NoteEncTrace ----------------------------
(* Judges what holders of real keys read from real actions.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES r, l
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Hows == CASE Focus = "C12" -> {"full", "compact"} [] Focus = "C13" -> {"out"} [] OTHER -> {"full", "compact", "out"}
Init == r \in 1..Len(Runs) /\ l = 1
Step == l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r

\* A scan with a list of keys reports, for each action, what the first key that reads it reads.
Expect(tab, how, keys) ==
  {h \in UNION {{<<i, keys[k], tab[i][how][keys[k]]>> : k \in 1..Len(keys)} : i \in 1..Len(tab)} :
     /\ h[3] # "none"
     /\ \E k \in 1..Len(keys) : keys[k] = h[2] /\ \A m \in 1..(k - 1) : tab[h[1]][how][keys[m]] = "none"}
ScanOK(s, tab) == LET want == Expect(tab, s.how, s.keys) IN
  {s.hits[k] : k \in 1..Len(s.hits)} = want /\ Len(s.hits) = Cardinality(want)
ScansOK(tab) == \A k \in 1..Len(E.scans) : E.scans[k].how \in Hows => ScanOK(E.scans[k], tab)

\* Actions made from the specification's terms.
TCase == /\ Step /\ E.op = "case"
         /\ \A i \in 1..Len(E.want), how \in Hows : E.got[i][how] = E.want[i][how]
         /\ ScansOK(E.want)
         \* The library's own encryption of the honest outputs gives the same bytes.
         /\ \A k \in 1..Len(E.made) : E.made[k].got = E.made[k].want

\* Bundles made by the builder: for each action who it was sent to (or nobody), with what
\* outgoing viewing key.
Table(a) == [i \in 1..Len(a) |-> [how \in {"full", "compact", "out"} |->
   [kn \in DOMAIN E.got[i][how] |->
      IF a[i].to = "none" THEN "none"
      ELSE IF how = "out" THEN (IF kn = a[i].ovk THEN a[i].full ELSE "none")
      ELSE IF kn # a[i].to THEN "none" ELSE IF how = "full" THEN a[i].full ELSE a[i].compact]]]
TBuilt == /\ Step /\ E.op = "built"
          /\ LET tab == Table(E.sent) IN
             /\ \A i \in 1..Len(tab), how \in Hows, kn \in DOMAIN E.got[1][CHOOSE h \in Hows : TRUE] : E.got[i][how][kn] = tab[i][how][kn]
             /\ ScansOK(tab)
          /\ \A k \in 1..Len(E.made) : E.made[k].got = E.made[k].want
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED <<r, l>>
Next == TCase \/ TBuilt \/ Done
Spec == Init /\ [][Next]_<<r, l>>
=============================================================================
