----------------------------- MODULE TreeTrace -----------------------------
(* Judges recorded uses of the library's tree hashing, paths and anchors.  *)
EXTENDS Tree, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, leaves, base, seen, r, l
tvars == <<n, leaves, base, seen, r, l>>
E == Runs[r][l]
Has(f) == f \in DOMAIN E
Init == r \in 1..Len(Runs) /\ l = 1 /\ n = 0 /\ leaves = <<>> /\ base = "" /\ seen = [k \in {} |-> ""]
Step == l <= Len(Runs[r]) /\ ~Has("panic") /\ l' = l + 1 /\ r' = r

\* Paths: exact, and different from the run's first exactly when the design says so.
TPath == /\ Step /\ E.op = "path" /\ E.got = E.want
         /\ base' = IF base = "" THEN E.got ELSE base
         /\ base # "" => (E.got = base) = E.same
         /\ UNCHANGED <<n, leaves, seen>>
\* Appends: the root is exact; a path obtained for each leaf leads from it, and no other
\* leaf, at its position and no other, to the root.
TAppend == /\ Step /\ E.op = "append"
           /\ n' = n + 1 /\ leaves' = Append(leaves, V(E.leaf))
           /\ E.root = E.want
           /\ Len(E.paths) = n'
           /\ \A p \in 1..n' : LET w == E.paths[p] IN
                /\ w.own = E.root
                /\ w.other # E.root                      \* another leaf
                /\ \A k \in 1..Len(w.moved) : (w.moved[k].root = E.root) = Symmetric(leaves', p - 1, w.moved[k].bit)
           \* A path taken earlier still leads to the root of its time.
           /\ \A k \in DOMAIN seen : E.root # seen[k]
           /\ \A k \in 1..Len(E.old) : E.old[k] = seen[k]
           /\ seen' = (n' :> E.root) @@ seen
           /\ UNCHANGED base
TNode == /\ Step /\ E.op = "node" /\ E.got = E.want
         /\ LET key == <<E.level, E.x, E.y>> IN
            /\ \A k \in DOMAIN seen : (k = key) = (seen[k] = E.got)
            /\ seen' = (key :> E.got) @@ seen
         /\ UNCHANGED <<n, leaves, base>>
TEmpty == /\ Step /\ E.op = "empty" /\ E.got = E.want /\ E.got = E.name
          /\ E.level = 0 => E.leaf = E.want
          /\ E.level = 32 => E.anchor = E.want
          /\ UNCHANGED <<n, leaves, base, seen>>
Done == l = Len(Runs[r]) + 1 /\ UNCHANGED tvars
Next == TPath \/ TAppend \/ TNode \/ TEmpty \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
