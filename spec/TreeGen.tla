------------------------------ MODULE TreeGen ------------------------------
EXTENDS Tree, Json, CSV, IOUtils
CONSTANTS MaxLeaves, Labels, Bases   \* appended leaves, their labels, positions whose paths are altered
VARIABLES mode, leaves, cur, hist
gvars == <<mode, leaves, cur, hist>>
View == <<mode, leaves, cur, Len(hist)>>

Leaf(x) == V(x)
NoPath == [leaf |-> "-", bits |-> <<>>, sibs |-> <<>>]
Sib(k) == "s" \o ToString(k - 1)
Hole(k) == "empty." \o ToString(k - 1)
\* Siblings that are all different, those of a lone leaf, and those of a leaf among empty subtrees.
AllSibs == [k \in 1..Depth |-> Sib(k)]
NoSibs == [k \in 1..Depth |-> Hole(k)]
SomeSibs == [k \in 1..Depth |-> IF k % 3 = 0 THEN Sib(k) ELSE IF k % 3 = 1 THEN Hole(k) ELSE "zero"]
TermOf(p) == PathRoot(Leaf(p.leaf), p.bits, [k \in 1..Depth |-> V(p.sibs[k])])

\* Positions: single bits, their complements, and patterns.
One(k) == [j \in 1..Depth |-> IF j = k THEN 1 ELSE 0]
NotOne(k) == [j \in 1..Depth |-> IF j = k THEN 0 ELSE 1]
Below(k) == [j \in 1..Depth |-> IF j <= k THEN 1 ELSE 0]
Mod(k, m) == [j \in 1..Depth |-> IF (j + k) % m = 0 THEN 1 ELSE 0]
Positions == {One(k) : k \in 0..Depth} \cup {NotOne(k) : k \in 0..Depth} \cup {Below(k) : k \in 1..Depth}
             \cup {Mod(k, m) : k \in 0..2, m \in 2..7}
BasePos == {Mod(b, 3) : b \in Bases} \cup {Below(b) : b \in Bases}

Init == /\ leaves = <<>> /\ hist = <<>>
        /\ \/ mode = "tree" /\ cur = NoPath
           \/ mode = "path" /\ \E b \in Positions : \E ss \in {AllSibs} \cup (IF b \in BasePos THEN {NoSibs, SomeSibs} ELSE {}) :
                                   cur = [leaf |-> "l1", bits |-> b, sibs |-> ss]
           \/ mode = "node" /\ cur = NoPath
           \/ mode = "empty" /\ cur = NoPath

PathEvent(p, same) == [op |-> "path", leaf |-> p.leaf, bits |-> p.bits, sibs |-> p.sibs, same |-> same, want |-> Repr(TermOf(p))]
ShowBase == /\ mode = "path" /\ hist = <<>> /\ hist' = << PathEvent(cur, TRUE) >> /\ UNCHANGED <<mode, leaves, cur>>
\* Anything altered in a path, or the leaf, leads elsewhere.
Altered(p) == ({[p EXCEPT !.leaf = x] : x \in {"l2", "s0", "s31", "empty.0", "zero", "one", "max"}}
  \cup {[p EXCEPT !.bits[k] = 1 - @] : k \in 1..Depth}
  \cup {[p EXCEPT !.sibs[k] = x] : k \in 1..Depth, x \in {"other", "max", "zero", "one", "l1", "s0", "empty.0", "empty.31"}}
  \cup {[p EXCEPT !.sibs[k] = Hole(k)] : k \in 1..Depth}                               \* as if nothing were there
  \cup {[p EXCEPT !.sibs[k] = p.sibs[k + 1], !.sibs[k + 1] = p.sibs[k]] : k \in 1..(Depth - 1)}
  \cup {[p EXCEPT !.leaf = p.sibs[1], !.sibs[1] = p.leaf]}                              \* the sibling, misplaced
  \cup {[p EXCEPT !.leaf = p.sibs[1], !.sibs[1] = p.leaf, !.bits[1] = 1 - @]}           \* the sibling, at its place: same root
  ) \ {p}
AlterPath == /\ mode = "path" /\ Len(hist) = 1 /\ cur.bits \in BasePos
             /\ \E q \in Altered(cur) : cur' = q /\ hist' = Append(hist, PathEvent(q, TermOf(q) = TermOf(cur)))
             /\ UNCHANGED <<mode, leaves>>

\* A growing tree: after every append, the root and the path of every leaf so far.
AppendLeaf == /\ mode = "tree" /\ Len(leaves) < MaxLeaves
              /\ \E x \in Labels : /\ leaves' = Append(leaves, Leaf(x))
                                   /\ hist' = Append(hist, [op |-> "append", leaf |-> x, want |-> Repr(RootOf(leaves'))])
              /\ UNCHANGED <<mode, cur>>

Nodes == /\ mode = "node" /\ hist = <<>>
         /\ LET Pairs == <<<<"l1", "l2">>, <<"l2", "l1">>, <<"l1", "l1">>, <<"l2", "l2">>, <<"zero", "l1">>, <<"l1", "zero">>, <<"max", "zero">>, <<"max", "max">>,
                          <<"empty.0", "empty.0">>, <<"empty.0", "l1">>, <<"l1", "empty.0">>, <<"zero", "zero">>, <<"empty.1", "empty.1">>, <<"empty.9", "empty.0">>>> IN
            hist' = [k \in 1..(Depth * Len(Pairs)) |->
               LET lev == (k - 1) \div Len(Pairs)  p == Pairs[1 + ((k - 1) % Len(Pairs))] IN
               [op |-> "node", level |-> lev, x |-> p[1], y |-> p[2], want |-> Repr(MerkleNode(lev, V(p[1]), V(p[2])))]]
         /\ UNCHANGED <<mode, leaves, cur>>
Empties == /\ mode = "empty" /\ hist = <<>>
           /\ hist' = [k \in 1..(Depth + 1) |-> [op |-> "empty", level |-> k - 1, want |-> Repr(EmptyDef(k - 1)), name |-> Repr(EmptyAt(k - 1))]]
           /\ UNCHANGED <<mode, leaves, cur>>
Next == ShowBase \/ AlterPath \/ AppendLeaf \/ Nodes \/ Empties
Spec == Init /\ [][Next]_gvars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT)

---------------------------------------------------------------------------
\* Every leaf's path leads to the root, and nothing else does.
PathsLead == mode = "tree" => \A p \in 0..(Len(leaves) - 1) :
   /\ PathRoot(leaves[p + 1], BitsOf(p), Witness(leaves, p)) = RootOf(leaves)
   /\ \A x \in Labels : Leaf(x) # leaves[p + 1] => PathRoot(Leaf(x), BitsOf(p), Witness(leaves, p)) # RootOf(leaves)
   /\ \A k \in 1..Depth : (PathRoot(leaves[p + 1], Moved(p, k), Witness(leaves, p)) = RootOf(leaves)) = Symmetric(leaves, p, k)
\* Appending always changes the root.
Grows == [][Len(leaves') > Len(leaves) => RootOf(leaves') # RootOf(leaves)]_gvars
\* Among the altered paths only the sibling at its own place has the same root.
OneSame == (mode = "path" /\ Len(hist) = 2) =>
   (hist[2].same <=> (cur.leaf = hist[1].sibs[1] /\ cur.sibs[1] = hist[1].leaf /\ cur.bits[1] # hist[1].bits[1]))
=============================================================================
