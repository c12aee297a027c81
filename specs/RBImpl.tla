------------------------------- MODULE RBImpl -------------------------------
(***************************************************************************)
(* The algorithm of rbtree.c: nodes without parent pointers, the ancestors *)
(* of the current node on a stack, fix-up by cases.  TLC checks that it    *)
(* implements RBTree (every step satisfies RBTree!Step) for all trees it   *)
(* can build with up to MaxNodes keys.                                     *)
(*                                                                         *)
(* A heap h maps node ids to left, right (0: none), black and the rank of  *)
(* the key; h.root is the root.  stk is the stack, its last element is the *)
(* top (what tree->sp points to).                                                        *)
(***************************************************************************)
EXTENDS RBTree
CONSTANT MaxNodes
VARIABLES tree, op
vars == <<tree, op>>

\* ---- from a tree to a heap and back (node ids are the ranks before the call)
RECURSIVE Nodes(_)
Nodes(t) == IF t = Nil THEN {} ELSE Nodes(L(t)) \cup {t} \cup Nodes(R(t))
Id(t) == IF t = Nil THEN 0 ELSE K(t)
Heap(t) == LET N == Nodes(t) n == Size(t) At(i) == CHOOSE x \in N : K(x) = i IN
  [root |-> Id(t), left |-> [i \in 1 .. n |-> Id(L(At(i)))], right |-> [i \in 1 .. n |-> Id(R(At(i)))],
   black |-> [i \in 1 .. n |-> At(i)[3]], key |-> [i \in 1 .. n |-> i]]
RECURSIVE Tree(_, _)
Tree(h, i) == IF i = 0 THEN Nil ELSE <<Tree(h, h.left[i]), h.key[i], h.black[i], Tree(h, h.right[i])>>
RECURSIVE Renumber(_, _)
\* keys become ranks again: f maps a key to its rank
Renumber(t, f) == IF t = Nil THEN Nil ELSE <<Renumber(L(t), f), f[K(t)], t[3], Renumber(R(t), f)>>
Ranks(t) == LET k == Keys(t) IN [x \in {k[i] : i \in 1 .. Len(k)} |-> CHOOSE i \in 1 .. Len(k) : k[i] = x]
Canonical(h) == LET t == Tree(h, h.root) IN Renumber(t, Ranks(t))

\* ---- helpers of rbtree.c
IsBlack(h, i) == i = 0 \/ h.black[i]
SetB(h, i, b) == [h EXCEPT !.black[i] = b]
Replace(h, old, parent, new) ==
  IF parent = 0 THEN [h EXCEPT !.root = new]
  ELSE IF old = h.left[parent] THEN [h EXCEPT !.left[parent] = new] ELSE [h EXCEPT !.right[parent] = new]
RotL(h, n, parent) == LET r == h.right[n] g == Replace(h, n, parent, r) IN [g EXCEPT !.right[n] = g.left[r], !.left[r] = n]
RotR(h, n, parent) == LET x == h.left[n] g == Replace(h, n, parent, x) IN [g EXCEPT !.left[n] = g.right[x], !.right[x] = n]
Top(s, k) == IF Len(s) > k THEN s[Len(s) - k] ELSE 0
Pop(s, k) == SubSeq(s, 1, Len(s) - k)

\* ---- insertion: _rbtree_insert_case1 and _rbtree_insert_case2_to_6
RECURSIVE InsFix(_, _)
InsFix(h, s) ==
  LET n == Top(s, 0) p == Top(s, 1) g == Top(s, 2) IN
  IF IsBlack(h, p) THEN h
  ELSE LET uncle == IF p = h.left[g] THEN h.right[g] ELSE h.left[g] IN
    IF ~IsBlack(h, uncle)
    THEN LET h1 == SetB(SetB(SetB(h, p, TRUE), uncle, TRUE), g, FALSE)
             s1 == Pop(s, 2)
         IN IF Len(s1) = 1 THEN SetB(h1, Top(s1, 0), TRUE) ELSE InsFix(h1, s1)
    ELSE LET c4 == IF n = h.right[p] /\ p = h.left[g] THEN <<RotL(h, p, g), n, p, "l">>
                   ELSE IF n = h.left[p] /\ p = h.right[g] THEN <<RotR(h, p, g), n, p, "r">>
                   ELSE <<h, p, n, "">>
             h1 == c4[1] p1 == c4[2] n1 == c4[3]
             gg == Top(s, 3)
             h2 == SetB(SetB(h1, g, FALSE), p1, TRUE)
         IN IF n1 = h2.left[p1] /\ p1 = h2.left[g] THEN RotR(h2, g, gg) ELSE RotL(h2, g, gg)
\* the path from the root to the place of gap g in the tree (keys are ranks)
RECURSIVE Path(_, _, _)
Path(h, i, g) == IF i = 0 THEN <<>> ELSE <<i>> \o (IF g < h.key[i] THEN Path(h, h.left[i], g) ELSE Path(h, h.right[i], g))
Insert(g) ==
  /\ Size(tree) < MaxNodes
  /\ LET h == Heap(tree) n == Size(tree) + 1
         s == Path(h, h.root, g)
         p == Top(s, 0)
         \* the new node n has the key between g and g + 1
         h1 == [h EXCEPT !.left = [i \in 1 .. n |-> IF i = n THEN 0 ELSE h.left[i]], !.right = [i \in 1 .. n |-> IF i = n THEN 0 ELSE h.right[i]],
                         !.black = [i \in 1 .. n |-> IF i = n THEN FALSE ELSE h.black[i]],
                         !.key = [i \in 1 .. n |-> IF i = n THEN g + 1 ELSE IF h.key[i] > g THEN h.key[i] + 1 ELSE h.key[i]]]
         h2 == IF p = 0 THEN [h1 EXCEPT !.root = n, !.black[n] = TRUE]
               ELSE InsFix(IF g < h.key[p] THEN [h1 EXCEPT !.left[p] = n] ELSE [h1 EXCEPT !.right[p] = n], Append(s, n))
     IN tree' = Canonical(h2)
  /\ op' = <<"Insert", g>>

\* ---- removal: _rbtree_remove_case1 .. case3_to_6
RECURSIVE RemFix(_, _)
RemFix(h, s) ==
  IF Len(s) <= 1 THEN h
  ELSE
  LET n == Top(s, 0) p == Top(s, 1)
      sib0 == IF h.right[p] = n THEN h.left[p] ELSE h.right[p]
      \* case 2
      c2 == IF ~IsBlack(h, sib0)
            THEN LET h1 == SetB(SetB(h, p, FALSE), sib0, TRUE) gp == Top(s, 2) IN
                 <<IF h1.left[p] = n THEN RotL(h1, p, gp) ELSE RotR(h1, p, gp), Pop(s, 2) \o <<sib0, p, n>>>>
            ELSE <<h, s>>
      h2 == c2[1] s2 == c2[2]
      sib == IF h2.right[p] = n THEN h2.left[p] ELSE h2.right[p]
  IN IF IsBlack(h2, sib) /\ IsBlack(h2, h2.left[sib]) /\ IsBlack(h2, h2.right[sib])
     THEN IF IsBlack(h2, p) THEN RemFix(SetB(h2, sib, FALSE), Pop(s2, 1))          \* case 3
          ELSE SetB(SetB(h2, sib, FALSE), p, TRUE)                                  \* case 4
     ELSE
     LET c5 == IF n = h2.left[p] /\ IsBlack(h2, sib) /\ ~IsBlack(h2, h2.left[sib]) /\ IsBlack(h2, h2.right[sib])
               THEN LET g == RotR(SetB(SetB(h2, sib, FALSE), h2.left[sib], TRUE), sib, p) IN <<g, g.right[p]>>
               ELSE IF n = h2.right[p] /\ IsBlack(h2, sib) /\ IsBlack(h2, h2.left[sib]) /\ ~IsBlack(h2, h2.right[sib])
               THEN LET g == RotL(SetB(SetB(h2, sib, FALSE), h2.right[sib], TRUE), sib, p) IN <<g, g.left[p]>>
               ELSE <<h2, sib>>
         h5 == c5[1] sib5 == c5[2]
         h6 == SetB(SetB(h5, sib5, h5.black[p]), p, TRUE)
         gp6 == Top(s2, 2)
     IN IF n = h6.left[p] THEN RotL(SetB(h6, h6.right[sib5], TRUE), p, gp6)
        ELSE RotR(SetB(h6, h6.left[sib5], TRUE), p, gp6)
RECURSIVE FindPath(_, _, _)
FindPath(h, i, r) == IF h.key[i] = r THEN <<i>> ELSE <<i>> \o FindPath(h, IF r < h.key[i] THEN h.left[i] ELSE h.right[i], r)
RECURSIVE MaxPath(_, _)
MaxPath(h, i) == IF h.right[i] = 0 THEN <<i>> ELSE <<i>> \o MaxPath(h, h.right[i])
Remove(r) ==
  /\ r \in 1 .. Size(tree)
  /\ LET h == Heap(tree)
         s0 == FindPath(h, h.root, r)
         x == Top(s0, 0)
         both == h.left[x] # 0 /\ h.right[x] # 0
         s == IF both THEN s0 \o MaxPath(h, h.left[x]) ELSE s0
         n == Top(s, 0)
         h1 == IF both THEN [h EXCEPT !.key[x] = h.key[n]] ELSE h
         child == IF h1.right[n] # 0 THEN h1.right[n] ELSE h1.left[n]
         parent == Top(s, 1)
         h2 == IF IsBlack(h1, n) THEN RemFix(IF ~IsBlack(h1, child) THEN SetB(h1, n, FALSE) ELSE h1, s) ELSE h1
         h3 == Replace(h2, n, parent, child)
         h4 == IF parent = 0 /\ child # 0 THEN SetB(h3, child, TRUE) ELSE h3
     IN tree' = Canonical(h4)
  /\ op' = <<"Remove", r>>

Init == tree = Nil /\ op = <<"none", 0>>
Next == \E x \in 0 .. MaxNodes : (x <= Size(tree) /\ Insert(x)) \/ Remove(x)
Spec == Init /\ [][Next]_vars
View == tree
\* the algorithm implements RBTree
RedBlack == Valid(tree, Size(tree))
Implements == [][Step(tree, op'[1], op'[2], tree')]_vars
EmitInit == TRUE
Emit == PrintT(ToJson([t |-> tree, n |-> op'[1], x |-> op'[2], u |-> tree']))
=============================================================================
