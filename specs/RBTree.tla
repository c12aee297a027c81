------------------------------- MODULE RBTree -------------------------------
(***************************************************************************)
(* What a red-black tree is and how its operations may change it.          *)
(*                                                                         *)
(* A tree is <<>> (no node) or <<left, key, black, right>>.  Keys are the  *)
(* ranks 1 .. n of the stored keys, so a tree is the same as its shape and *)
(* colours; an insertion into gap g (0 .. n) shifts the ranks above g.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Nil == <<>>
L(t) == t[1]
K(t) == t[2]
Black(t) == IF t = Nil THEN TRUE ELSE t[3]
R(t) == t[4]
RECURSIVE Keys(_)
Keys(t) == IF t = Nil THEN <<>> ELSE Keys(L(t)) \o <<K(t)>> \o Keys(R(t))
RECURSIVE Size(_)
Size(t) == IF t = Nil THEN 0 ELSE Size(L(t)) + 1 + Size(R(t))
\* number of black nodes on every path from the root of t to a missing child; -1 if paths differ
RECURSIVE BH(_)
BH(t) == IF t = Nil THEN 0
         ELSE LET a == BH(L(t)) b == BH(R(t)) IN
              IF a < 0 \/ a # b THEN -1 ELSE IF t[3] THEN a + 1 ELSE a
RECURSIVE NoRedRed(_)
NoRedRed(t) == IF t = Nil THEN TRUE ELSE IF ~t[3] /\ ~(Black(L(t)) /\ Black(R(t))) THEN FALSE ELSE NoRedRed(L(t)) /\ NoRedRed(R(t))
RECURSIVE Height(_)
Height(t) == IF t = Nil THEN 0 ELSE LET a == Height(L(t)) b == Height(R(t)) IN 1 + (IF a > b THEN a ELSE b)
Balanced(t) == Black(t) /\ NoRedRed(t) /\ BH(t) >= 0
\* a red-black tree with the keys 1 .. n
Valid(t, n) == Keys(t) = [i \in 1 .. n |-> i] /\ Balanced(t)

(* The cost of a call on n keys *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* floor(2 * log2(m)): the largest j with 2^j <= m^2
TwiceLog2(m) == LET k == Log2(m) IN IF m * m >= Pow2(2 * k + 1) THEN 2 * k + 1 ELSE 2 * k
Bound(n) == TwiceLog2(n + 1) + 1

(***************************************************************************)
(* The operations, as relations between the tree before and after.         *)
(***************************************************************************)
\* a new key in gap g: the new tree has the keys 1 .. n+1 and is balanced again
InsertOK(t, g, u) == g \in 0 .. Size(t) /\ Valid(u, Size(t) + 1)
\* setting a stored key changes no key and leaves a red-black tree
ReplaceOK(t, r, u) == r \in 1 .. Size(t) /\ Valid(u, Size(t))
RemoveOK(t, r, u) == r \in 1 .. Size(t) /\ Valid(u, Size(t) - 1)
\* removing a key which is not there (gap g), or looking up
AbsentOK(t, g, u) == g \in 0 .. Size(t) /\ Valid(u, Size(t))
Step(t, name, x, u) ==
  CASE name = "Insert" -> InsertOK(t, x, u)
    [] name = "Replace" -> ReplaceOK(t, x, u)
    [] name = "Remove" -> RemoveOK(t, x, u)
    [] name = "RemoveAbsent" -> AbsentOK(t, x, u)
    [] name = "Clear" -> u = Nil
    [] OTHER -> FALSE

(***************************************************************************)
(* All red-black trees of n nodes: for counting what a check has seen, and *)
(* for checking the bound on heights.                                      *)
(***************************************************************************)
RECURSIVE Trees(_, _, _)
\* trees with keys lo .. hi and black height h
Trees(lo, hi, h) ==
  IF hi < lo THEN (IF h = 0 THEN {Nil} ELSE {})
  ELSE UNION {
     {<<a, k, TRUE, b>> : a \in (IF h > 0 THEN Trees(lo, k - 1, h - 1) ELSE {}), b \in (IF h > 0 THEN Trees(k + 1, hi, h - 1) ELSE {})}
     \cup {<<a, k, FALSE, b>> : a \in {t \in Trees(lo, k - 1, h) : Black(t)}, b \in {t \in Trees(k + 1, hi, h) : Black(t)}}
     : k \in lo .. hi }
AllTrees(n) == UNION {{t \in Trees(1, n, h) : Black(t)} : h \in 0 .. Log2(n + 1)}
=============================================================================
