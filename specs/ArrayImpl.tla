----------------------------- MODULE ArrayImpl -----------------------------
(***************************************************************************)
(* The algorithm of assocarray.c: keys and values in two arrays kept in    *)
(* the order of the keys, found by bisection, grown by doubling.  What     *)
(* lies behind the last entry is whatever was left there.  TLC checks that *)
(* it implements Map with Ordered iteration (Refines), that the arrays are *)
(* in order and long enough (Sound) and that no search needs more          *)
(* comparisons than the logarithm of the number of entries (Cheap).        *)
(*                                                                         *)
(* Designs "early" (bisection stops one step early), "behind" (a new key   *)
(* always goes behind the place the search ended at), "apart" (only the    *)
(* keys make room for an entry), "full" (grows one entry too late) and     *)
(* "linear" (searched from the front) have to be refuted.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Keys, Copies, Vals, FreeModes, Iters,
          First,     \* entries there is room for in a new array
          Design
VARIABLES size, count, ks, vs,   \* ks[i], vs[i]: what is at offset i - 1
          pair, it, fm, alive, op,
          cost                   \* comparisons of the last call
vars == <<size, count, ks, vs, pair, it, fm, alive, op, cost>>
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
FK(kl) == IF fm \in {"k", "kv"} THEN <<kl>> ELSE <<>>
FV(v) == IF fm \in {"v", "kv"} /\ v # 0 THEN <<v>> ELSE <<>>
Class(kl) == kl \div 10
\* result: [c: sign of the last comparison, i: offset + 1 where it ended, n: comparisons]
Sign(k, kl) == IF k < Class(kl) THEN 0 - 1 ELSE IF k > Class(kl) THEN 1 ELSE 0
RECURSIVE Bisect(_, _, _, _)
Bisect(k, b, e, r) ==
  IF (IF Design = "early" THEN b >= e ELSE b > e) THEN r
  ELSE LET m == (b + e) \div 2
           s == Sign(k, ks[m + 1])
           x == [c |-> s, i |-> m + 1, n |-> r.n + 1]
       IN IF s > 0 THEN Bisect(k, m + 1, e, x) ELSE IF s < 0 THEN Bisect(k, b, m - 1, x) ELSE x
RECURSIVE Walk(_, _)
Walk(k, i) == IF i = count \/ Sign(k, ks[i]) <= 0 THEN [c |-> Sign(k, ks[i]), i |-> i, n |-> i] ELSE Walk(k, i + 1)
Search(k) ==
  IF count = 1 THEN [c |-> Sign(k, ks[1]), i |-> 1, n |-> 1]
  ELSE IF Design = "linear" THEN Walk(k, 1) ELSE Bisect(k, 0, count - 1, [c |-> 0, i |-> 1, n |-> 0])
NoIter == [on |-> FALSE, off |-> 0, done |-> FALSE]
Init == /\ size = First /\ count = 0 /\ ks = [i \in 1 .. First |-> 0] /\ vs = [i \in 1 .. First |-> 0]
        /\ pair = 0 /\ it = [i \in Iters |-> NoIter] /\ fm \in FreeModes /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>) /\ cost = 0
Modified == pair' = 0 /\ it' = [i \in Iters |-> NoIter] /\ UNCHANGED <<fm, alive>>
Same == UNCHANGED <<size, count, ks, vs>>
\* memmove: n entries from offset f to offset t (from 1); what lies outside of the array is lost
Moved(a, f, t, n) == [i \in DOMAIN a |-> IF i >= t /\ i < t + n /\ f + (i - t) \in DOMAIN a THEN a[f + (i - t)] ELSE a[i]]
More(a, n) == a \o [i \in 1 .. n - Len(a) |-> 0]
Put(a, i, x) == IF i \in DOMAIN a THEN [a EXCEPT ![i] = x] ELSE a
Set(k, c, v, ow) ==
  /\ alive
  /\ IF count = 0
     THEN /\ ks' = [ks EXCEPT ![1] = 10 * k + c] /\ vs' = [vs EXCEPT ![1] = v] /\ count' = 1 /\ cost' = 0 /\ UNCHANGED size
          /\ op' = Call("Set", <<k, c, v, ow>>, 0, <<>>)
     ELSE LET r == Search(k) IN
       /\ cost' = r.n
       /\ IF r.c = 0
          THEN /\ ks' = IF ow = 1 THEN [ks EXCEPT ![r.i] = 10 * k + c] ELSE ks
               /\ vs' = [vs EXCEPT ![r.i] = v]
               /\ op' = Call("Set", <<k, c, v, ow>>, 1, (IF ow = 1 THEN FK(ks[r.i]) ELSE <<>>) \o FV(vs[r.i]))
               /\ UNCHANGED <<size, count>>
          ELSE LET n == IF count = size + (IF Design = "full" THEN 1 ELSE 0) THEN 2 * size ELSE size
                   K == More(ks, n) V == More(vs, n)
                   p == IF r.c < 0 /\ Design # "behind" THEN r.i ELSE r.i + 1
               IN /\ size' = n /\ count' = count + 1
                  /\ ks' = Put(Moved(K, p, p + 1, count - p + 1), p, 10 * k + c)
                  /\ vs' = Put(IF Design = "apart" THEN V ELSE Moved(V, p, p + 1, count - p + 1), p, v)
                  /\ op' = Call("Set", <<k, c, v, ow>>, 0, <<>>)
  /\ Modified
Delete(k) ==
  /\ alive
  /\ LET r == IF count = 0 THEN [c |-> 1, i |-> 0, n |-> 0] ELSE Search(k) IN
     /\ cost' = r.n
     /\ IF r.c # 0 THEN UNCHANGED <<count, ks, vs>> /\ op' = Call("Remove", <<k>>, 0, <<>>)
        ELSE /\ op' = Call("Remove", <<k>>, 0, FK(ks[r.i]) \o FV(vs[r.i]))
             /\ ks' = Moved(ks, r.i + 1, r.i, count - r.i) /\ vs' = Moved(vs, r.i + 1, r.i, count - r.i)
             /\ count' = count - 1
  /\ Modified /\ UNCHANGED size
Lookup(k) ==
  /\ alive
  /\ LET r == IF count = 0 THEN [c |-> 1, i |-> 0, n |-> 0] ELSE Search(k) IN
     /\ cost' = r.n /\ pair' = (IF r.c = 0 THEN r.i ELSE 0) /\ op' = Call("Lookup", <<k>>, IF r.c = 0 THEN 1 ELSE 0, <<>>)
  /\ Same /\ UNCHANGED <<it, fm, alive>>
PairSet(v) ==
  /\ alive /\ pair # 0
  /\ vs' = [vs EXCEPT ![pair] = v] /\ op' = Call("PairSet", <<v>>, 0, FV(vs[pair])) /\ cost' = 0
  /\ it' = [i \in Iters |-> NoIter] /\ UNCHANGED <<size, count, ks, pair, fm, alive>>
RECURSIVE FAll(_)
FAll(i) == IF i > count THEN <<>> ELSE FK(ks[i]) \o FV(vs[i]) \o FAll(i + 1)
Clear == alive /\ count' = 0 /\ cost' = 0 /\ op' = Call("Clear", <<>>, 0, FAll(1)) /\ Modified /\ UNCHANGED <<size, ks, vs>>
IterInit(i) == alive /\ it' = [it EXCEPT ![i] = [NoIter EXCEPT !.on = TRUE]] /\ op' = Call("IterInit", <<i>>, 0, <<>>) /\ cost' = 0 /\ Same /\ UNCHANGED <<pair, fm, alive>>
IterNext(i) ==
  /\ alive /\ it[i].on
  /\ LET x == it[i] y == IF x.off < count THEN [x EXCEPT !.off = @ + 1] ELSE [x EXCEPT !.done = TRUE] IN
     it' = [it EXCEPT ![i] = y] /\ op' = Call("IterNext", <<i>>, IF y.done THEN 0 ELSE ks[y.off], <<>>)
  /\ cost' = 0 /\ Same /\ UNCHANGED <<pair, fm, alive>>
Next ==
  \/ \E k \in Keys : Delete(k) \/ Lookup(k) \/ \E c \in Copies, v \in Vals, ow \in {0, 1} : Set(k, c, v, ow)
  \/ (\E v \in Vals : PairSet(v)) \/ Clear
  \/ \E i \in Iters : IterInit(i) \/ IterNext(i)
Spec == Init /\ [][Next]_vars

At(k) == LET w == {i \in 1 .. (IF count <= Len(ks) THEN count ELSE Len(ks)) : Class(ks[i]) = k} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : \A j \in w : i <= j
Abs == [k \in Keys |-> IF At(k) = 0 THEN [kl |-> 0, v |-> 0] ELSE [kl |-> ks[At(k)], v |-> vs[At(k)]]]
AbsIt == [i \in Iters |-> LET x == it[i] IN
            [st |-> IF x.on THEN "live" ELSE "none", seen |-> {Class(ks[j]) : j \in 1 .. x.off}, cur |-> IF x.off # 0 /\ ~x.done THEN Class(ks[x.off]) ELSE 0, done |-> x.done]]
M == INSTANCE Map WITH map <- Abs, filled <- FALSE, its <- AbsIt, pair <- IF pair = 0 THEN 0 ELSE Class(ks[pair]), FillN <- 0, Ordered <- TRUE, Reusable <- FALSE, Reports <- FALSE,
       OpNames <- {"Set", "Remove", "Lookup", "PairSet", "Clear", "IterInit", "IterNext"}
\* a step has to be the call of Map which op' names
Step == LET a == op'.args IN
  CASE op'.name = "Set" -> M!Set(a[1], a[2], a[3], a[4])
    [] op'.name = "Remove" -> M!Remove(a[1])
    [] op'.name = "Lookup" -> M!Lookup(a[1])
    [] op'.name = "PairSet" -> M!PairSet(a[1])
    [] op'.name = "Clear" -> M!Clear
    [] op'.name = "IterInit" -> M!IterInit(a[1])
    [] op'.name = "IterNext" -> M!IterNext(a[1])
Refines == M!Init /\ [][Step]_vars
Sound == /\ count <= size /\ Len(ks) = size /\ Len(vs) = size
         /\ \A i \in 1 .. count - 1 : Class(ks[i]) < Class(ks[i + 1])
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Cheap == [][cost' <= Log2(count) + 1]_vars
View == <<size, count, ks, vs, pair, it, fm, alive>>
=============================================================================
