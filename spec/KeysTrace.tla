----------------------------- MODULE KeysTrace -----------------------------
(* Judges recorded uses of real keys against Keys.  A run uses one set of  *)
(* inputs; the bytes every object showed are kept, and must be a function  *)
(* of its term, and different for different terms.                         *)
EXTENDS Keys, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES obj, seen, r, l
tvars == <<obj, seen, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ obj = OSk(V("sk1")) /\ seen = [k \in {} |-> ""]

\* The object an event leads to.
Next1(o) ==
  CASE E.op = "sk" -> OSk(V(E.x))
    [] E.op = "fvk" -> MFvk(o)
    [] E.op = "ask" -> MAsk(o)
    [] E.op = "ak" -> IF o.k = "ask" THEN MAkOfAsk(o) ELSE MAkOfFvk(o)
    [] E.op = "ivk" -> MIvk(o, E.scope)
    [] E.op = "ovk" -> MOvk(o, E.scope)
    [] E.op = "addr_at" -> IF o.k = "fvk" THEN MFvkAddrAt(o, E.scope, V(E.j)) ELSE MAddrAt(o, V(E.j))
    [] E.op = "addr_d" -> IF o.k = "fvk" THEN MFvkAddrD(o, E.scope, V(E.d)) ELSE MAddrD(o, V(E.d))
    [] E.op = "div" -> MDiv(o)
    [] E.op = "randomize" -> IF o.k = "ask" THEN MRsk(o, V(E.alpha)) ELSE MRkOfAk(o, V(E.alpha))
    [] E.op = "vk" -> MRkOfRsk(o)
    [] E.op = "mix" -> MMix(o, CanonIvk(V(E.x), E.scope), V(E.j))
    [] E.op = "flip" -> MFlip(o)
    [] E.op \in {"readdress", "reser", "scope_of", "index_of"} -> o

\* A term's identity: kind, and what it shows.  (A randomized key can be reached by two
\* routes with different but equal terms: A + alpha*G and (a + alpha)*G.)
Name(o) == IF o.k = "rk" THEN <<"rk">> ELSE <<o.k, Shows(o)>>
Fresh(o, b) == \A n \in DOMAIN seen : (n = Name(o)) = (seen[n] = b)

TShow == /\ l <= Len(Runs[r]) /\ ~Has("panic") /\ E.op \notin {"scope_of", "index_of"}
         /\ obj' = Next1(obj)
         /\ IF Has("got")
            THEN /\ (Has("want") => E.got = E.want)
                 /\ obj'.k \in {"fvk", "ivk", "ovk", "addr", "ak"} => Fresh(obj', E.got)
                 /\ seen' = IF obj'.k \in {"fvk", "ivk", "ovk", "addr", "ak"} THEN (Name(obj') :> E.got) @@ seen ELSE seen
            ELSE seen' = seen
         /\ l' = l + 1 /\ r' = r
TAsk == /\ l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r /\ UNCHANGED <<obj, seen>>
        /\ \/ E.op = "scope_of" /\ E.res = ScopeOf(OFvk(FvkOf(V(E.x))), obj)
           \/ E.op = "index_of" /\ E.res = (IF Recognizes(CanonIvk(V(E.x), E.scope), obj) THEN E.want ELSE "none")
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TShow \/ TAsk \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
