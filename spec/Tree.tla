-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The note commitment tree: a binary tree of depth 32 whose leaves are    *)
(* appended from the left, unused leaves being 2.  The roots of empty      *)
(* subtrees are named, empty.l being a node over two empty.(l-1).          *)
(***************************************************************************)
EXTENDS Protocol, FiniteSets, TLC
Depth == 32

\* The root computed from a leaf, its position's bits (least significant first), and siblings.
RECURSIVE Climb(_, _, _, _)
Climb(node, lev, bits, sibs) ==
  IF lev = Depth THEN node
  ELSE Climb(IF bits[lev + 1] = 0 THEN MerkleNode(lev, node, sibs[lev + 1]) ELSE MerkleNode(lev, sibs[lev + 1], node),
             lev + 1, bits, sibs)
PathRoot(leaf, bits, sibs) == Climb(leaf, 0, bits, sibs)

EmptyAt(lev) == V("empty." \o ToString(lev))
EmptyDef(lev) == IF lev = 0 THEN Fn("base_int", <<I(2)>>) ELSE MerkleNode(lev - 1, EmptyAt(lev - 1), EmptyAt(lev - 1))

\* The i-th node at a level (0 for leaves).
FirstLeaf(lev, i, n) == IF i = 0 THEN 0 ELSE IF lev > 20 THEN n ELSE i * 2^lev
RECURSIVE NodeAt(_, _, _)
NodeAt(leaves, lev, i) ==
  IF FirstLeaf(lev, i, Len(leaves)) >= Len(leaves) THEN EmptyAt(lev)
  ELSE IF lev = 0 THEN leaves[i + 1]
  ELSE MerkleNode(lev - 1, NodeAt(leaves, lev - 1, 2 * i), NodeAt(leaves, lev - 1, 2 * i + 1))
RootOf(leaves) == NodeAt(leaves, Depth, 0)

Above(pos, lev) == IF lev > 20 THEN 0 ELSE pos \div 2^lev
BitsOf(pos) == [k \in 1..Depth |-> Above(pos, k - 1) % 2]
Other(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Witness(leaves, pos) == [k \in 1..Depth |-> NodeAt(leaves, k - 1, Other(Above(pos, k - 1)))]
\* A path read at a position differing in one bit; it makes no difference exactly when the two
\* subtrees meeting at that level are the same.
Moved(pos, k) == [BitsOf(pos) EXCEPT ![k] = 1 - @]
Symmetric(leaves, pos, k) == NodeAt(leaves, k - 1, Above(pos, k - 1)) = Witness(leaves, pos)[k]
=============================================================================
