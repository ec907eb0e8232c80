---------------------------- MODULE Zip32Trace ----------------------------
(* Judges account keys derived by the library.  Within a run the same      *)
(* variables denote the same bytes; a request's answer never changes, and  *)
(* different requests have different answers.                              *)
EXTENDS Zip32, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES seen, r, l
tvars == <<seen, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ seen = [k \in {} |-> ""]
Key == <<E.seed, E.coin, E.acct>>
TDerive == /\ l <= Len(Runs[r]) /\ ~Has("panic")
           /\ IF TooLarge(E.coin) THEN E.got = "refused" /\ seen' = seen
              ELSE /\ E.got = E.want
                   /\ \A k \in DOMAIN seen : (k = Key) = (seen[k] = E.got)
                   /\ seen' = (Key :> E.got) @@ seen
           /\ l' = l + 1 /\ r' = r
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TDerive \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
