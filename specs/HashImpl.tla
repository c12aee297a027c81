------------------------------ MODULE HashImpl ------------------------------
(***************************************************************************)
(* The algorithm of hashtable.c: an array of chains, growing through a     *)
(* list of sizes, and iterators which walk the chains.  TLC checks that it *)
(* implements Map (Refines) and that every entry is in the chain of its    *)
(* hash value (Placed), whatever the hash function.                        *)
(*                                                                         *)
(* Designs "lose" (growing keeps one entry of each chain), "stay" (growing *)
(* moves nothing), "second" (removal takes the first entry of the chain)   *)
(* and "skip" (iterators leave out the last chain) have to be refuted.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Keys, Copies, Vals, FreeModes, Iters,
          HashMul,   \* the hash value of a key is key * HashMul
          Sizes,     \* the sizes it grows through; just one: it does not grow
          Design
SmallSizes == <<1, 2, 3>>
VARIABLES at,        \* index in Sizes
          chain,     \* bucket -> sequence of [k, c, v]
          pair, it, fm, alive, op
vars == <<at, chain, pair, it, fm, alive, op>>
Hash(k) == k * HashMul
Slots(i) == 0 .. Sizes[i] - 1
Slot(k, i) == Hash(k) % Sizes[i]
RECURSIVE All(_, _)
All(c, S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : \A t \in S : s <= t IN c[s] \o All(c, S \ {s})
Entries == All(chain, DOMAIN chain)
Where(s, k) == LET w == {i \in 1 .. Len(s) : s[i].k = k} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : \A j \in w : i <= j
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
FK(e) == IF fm \in {"k", "kv"} THEN <<10 * e.k + e.c>> ELSE <<>>
FV(e) == IF fm \in {"v", "kv"} /\ e.v # 0 THEN <<e.v>> ELSE <<>>
NoIter == [on |-> FALSE, b |-> 0, p |-> 0, end |-> FALSE]
Init == at = 1 /\ chain = [s \in Slots(1) |-> <<>>] /\ pair = 0 /\ it = [i \in Iters |-> NoIter] /\ fm \in FreeModes /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>)
Modified == pair' = 0 /\ it' = [i \in Iters |-> NoIter] /\ UNCHANGED <<fm, alive>>

\* growing: the chains are taken in turn, every entry is put in front of its new chain
RECURSIVE Move(_, _, _)
Move(s, c, i) == IF s = <<>> THEN c ELSE Move(Tail(s), [c EXCEPT ![Slot(Head(s).k, i)] = <<Head(s)>> \o @], i)
Grown(c, i) ==
  LET new == [s \in Slots(i + 1) |-> <<>>]
      from == All(IF Design = "lose" THEN [s \in DOMAIN c |-> IF c[s] = <<>> THEN <<>> ELSE <<Head(c[s])>>] ELSE c, DOMAIN c)
  IN IF Design = "stay" THEN [s \in Slots(i + 1) |-> IF s \in DOMAIN c THEN c[s] ELSE <<>>] ELSE Move(from, new, i + 1)
Set(k, c, v, ow) ==
  /\ alive
  /\ LET grow == at < Len(Sizes) /\ Len(Entries) > Sizes[at]
         i == IF grow THEN at + 1 ELSE at
         ch == IF grow THEN Grown(chain, at) ELSE chain
         s == Slot(k, i)
         p == Where(ch[s], k)
     IN /\ at' = i
        /\ IF p # 0
           THEN /\ chain' = [ch EXCEPT ![s][p] = [k |-> k, c |-> IF ow = 1 THEN c ELSE @.c, v |-> v]]
                /\ op' = Call("Set", <<k, c, v, ow>>, 1, (IF ow = 1 THEN FK(ch[s][p]) ELSE <<>>) \o FV(ch[s][p]))
           ELSE /\ chain' = [ch EXCEPT ![s] = <<[k |-> k, c |-> c, v |-> v]>> \o @]
                /\ op' = Call("Set", <<k, c, v, ow>>, 0, <<>>)
  /\ Modified
Delete(k) ==
  /\ alive
  /\ LET s == Slot(k, at) p == Where(chain[s], k) q == IF Design = "second" /\ p > 1 THEN 1 ELSE p IN
     IF p = 0 THEN chain' = chain /\ op' = Call("Remove", <<k>>, 0, <<>>)
     ELSE chain' = [chain EXCEPT ![s] = RemoveAt(@, q)] /\ op' = Call("Remove", <<k>>, 0, FK(chain[s][q]) \o FV(chain[s][q]))
  /\ Modified /\ UNCHANGED at
Found(k) == Where(chain[Slot(k, at)], k)
Lookup(k) == alive /\ pair' = (IF Found(k) # 0 THEN k ELSE 0) /\ op' = Call("Lookup", <<k>>, IF Found(k) # 0 THEN 1 ELSE 0, <<>>) /\ UNCHANGED <<at, chain, it, fm, alive>>
PairSet(v) ==
  /\ alive /\ pair # 0
  /\ LET s == Slot(pair, at) p == Where(chain[s], pair) IN
     chain' = [chain EXCEPT ![s][p].v = v] /\ op' = Call("PairSet", <<v>>, 0, FV(chain[s][p]))
  /\ it' = [i \in Iters |-> NoIter] /\ UNCHANGED <<at, pair, fm, alive>>
Clear ==
  /\ alive /\ chain' = [s \in DOMAIN chain |-> <<>>]
  /\ LET P == {Entries[i].k : i \in 1 .. Len(Entries)}
         RECURSIVE F(_)
         F(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y e == Entries[Where(Entries, m)] IN FK(e) \o FV(e) \o F(S \ {m})
     IN op' = Call("Clear", <<>>, 0, F(P))     \* (in the order of the keys: Map does not say which)
  /\ Modified /\ UNCHANGED at
IterInit(i) == alive /\ it' = [it EXCEPT ![i] = [NoIter EXCEPT !.on = TRUE]] /\ op' = Call("IterInit", <<i>>, 0, <<>>) /\ UNCHANGED <<at, chain, pair, fm, alive>>
\* p = 0: the next bucket has to be looked for, from b on
RECURSIVE Advance(_)
Advance(x) ==
  IF x.end THEN x
  ELSE IF x.p # 0 THEN IF x.p < Len(chain[x.b - 1]) THEN [x EXCEPT !.p = @ + 1] ELSE Advance([x EXCEPT !.p = 0])
  ELSE IF x.b >= Sizes[at] - (IF Design = "skip" THEN 1 ELSE 0) THEN [x EXCEPT !.end = TRUE]
  ELSE IF chain[x.b] # <<>> THEN [x EXCEPT !.b = @ + 1, !.p = 1] ELSE Advance([x EXCEPT !.b = @ + 1])
IterNext(i) ==
  /\ alive /\ it[i].on
  /\ LET y == Advance(it[i]) e == chain[y.b - 1][y.p] IN
     it' = [it EXCEPT ![i] = y] /\ op' = Call("IterNext", <<i>>, IF y.end THEN 0 ELSE 10 * e.k + e.c, <<>>)
  /\ UNCHANGED <<at, chain, pair, fm, alive>>
Next ==
  \/ \E k \in Keys : Delete(k) \/ Lookup(k) \/ \E c \in Copies, v \in Vals, ow \in {0, 1} : Set(k, c, v, ow)
  \/ (\E v \in Vals : PairSet(v)) \/ Clear
  \/ \E i \in Iters : IterInit(i) \/ IterNext(i)
Spec == Init /\ [][Next]_vars

Abs == [k \in Keys |-> LET p == Where(Entries, k) IN IF p = 0 THEN [kl |-> 0, v |-> 0] ELSE [kl |-> 10 * k + Entries[p].c, v |-> Entries[p].v]]
Seen(x) == LET before == All(chain, {s \in DOMAIN chain : s < (IF x.p = 0 THEN x.b ELSE x.b - 1)})
               here == IF x.p = 0 THEN <<>> ELSE SubSeq(chain[x.b - 1], 1, x.p)
               s == before \o here
           IN {s[j].k : j \in 1 .. Len(s)}
AbsIt == [i \in Iters |-> LET x == it[i] IN
            [st |-> IF x.on THEN "live" ELSE "none", seen |-> IF x.on THEN Seen(x) ELSE {}, cur |-> IF x.p # 0 THEN chain[x.b - 1][x.p].k ELSE 0, done |-> x.end]]
M == INSTANCE Map WITH map <- Abs, filled <- FALSE, its <- AbsIt, FillN <- 0, Ordered <- FALSE, Reusable <- FALSE, Reports <- FALSE,
       OpNames <- {"Set", "Remove", "Lookup", "PairSet", "Clear", "IterInit", "IterNext"}
\* a step has to be the call of Map which op' names
Step == LET a == op'.args IN
  CASE op'.name = "Set" -> M!Set(a[1], a[2], a[3], a[4])
    [] op'.name = "Remove" -> M!Remove(a[1])
    [] op'.name = "Lookup" -> M!Lookup(a[1])
    [] op'.name = "PairSet" -> M!PairSet(a[1])
    [] op'.name = "Clear" -> M!Clear
    [] op'.name = "IterInit" -> M!IterInit(a[1])
    [] op'.name = "IterNext" -> M!IterNext(a[1])
Refines == M!Init /\ [][Step]_vars
Placed == /\ \A s \in DOMAIN chain : \A i \in 1 .. Len(chain[s]) : Slot(chain[s][i].k, at) = s
          /\ \A i, j \in 1 .. Len(Entries) : i # j => Entries[i].k # Entries[j].k
View == <<at, chain, pair, it, fm, alive>>
=============================================================================
