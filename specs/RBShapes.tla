------------------------------ MODULE RBShapes ------------------------------
(* All red-black trees with up to MaxNodes nodes are states: their number   *)
(* (what the conformance check is measured against) and the bound on their  *)
(* height, from which the bound on the cost of calls follows.               *)
EXTENDS RBTree
CONSTANT MaxNodes
VARIABLE tree
\* every tree is an initial state; RBTree!Step allows any tree with one key more or less to follow
Init == \E n \in 0 .. MaxNodes : tree \in AllTrees(n)
Next == FALSE /\ UNCHANGED tree
Spec == Init /\ [][Next]_tree
HeightOK == Valid(tree, Size(tree)) /\ Height(tree) <= TwiceLog2(Size(tree) + 1)
=============================================================================
