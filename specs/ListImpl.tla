------------------------------ MODULE ListImpl ------------------------------
(***************************************************************************)
(* The algorithm of list.c: linked nodes, a head and a tail pointer and a  *)
(* counter.  TLC checks that it implements List (Refines) and that the     *)
(* links are right in every reachable state (Linked).                      *)
(*                                                                         *)
(* Design "code" is the present code; "unlinked" inserts without telling   *)
(* the item in front, "tail" forgets the tail pointer when the last item   *)
(* is taken off the head: TLC has to refute both.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Data, Keys, MaxLen, Design
VARIABLES h,        \* next, prev, dat: functions of nodes; head, tail, count
          hasFree, alive, op
vars == <<h, hasFree, alive, op>>

Node == 1 .. MaxLen + 1
NoData == -1     \* dat of a node that is not allocated
Key(d) == d \div 10
Empty == [next |-> [n \in Node |-> 0], prev |-> [n \in Node |-> 0], dat |-> [n \in Node |-> NoData], head |-> 0, tail |-> 0, count |-> 0]
New(g) == CHOOSE n \in Node : g.dat[n] = NoData /\ \A m \in Node : g.dat[m] = NoData => n <= m
Alloc(g, d) == [g EXCEPT !.dat[New(g)] = d, !.next[New(g)] = 0, !.prev[New(g)] = 0]
\* what is left of a released node is not looked at again: junk
Release(g, n) == [g EXCEPT !.dat[n] = NoData, !.next[n] = 0, !.prev[n] = 0]

RECURSIVE Fwd(_, _, _), Bwd(_, _, _)
Fwd(g, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o Fwd(g, g.next[n], k - 1)
Bwd(g, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o Bwd(g, g.prev[n], k - 1)
Items(g) == Fwd(g, g.head, MaxLen + 2)
Values(g) == [i \in 1 .. Len(Items(g)) |-> g.dat[Items(g)[i]]]
Pos(g, n) == LET w == {i \in 1 .. Len(Items(g)) : Items(g)[i] = n} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : TRUE

\* ---- the functions of list.c
PutLast(g0, d) ==
  LET n == New(g0) g == Alloc(g0, d) IN
  [(IF g.head # 0 THEN [g EXCEPT !.next[g.tail] = n, !.prev[n] = g.tail] ELSE [g EXCEPT !.head = n]) EXCEPT !.tail = n, !.count = @ + 1]
PutFirst(g0, d) ==
  LET n == New(g0) g == [Alloc(g0, d) EXCEPT !.next[n] = g0.head] IN
  [(IF g.head # 0 THEN [g EXCEPT !.prev[g.head] = n] ELSE [g EXCEPT !.tail = n]) EXCEPT !.head = n, !.count = @ + 1]
RECURSIVE Before(_, _, _, _)
\* last: the node whose next field is looked at (0: the head pointer)
Before(g, n, last, d) ==
  LET at == IF last = 0 THEN g.head ELSE g.next[last] IN
  IF at = 0 THEN [g EXCEPT !.count = @ + 1]
  ELSE IF Key(g.dat[at]) >= Key(d)
       THEN LET g1 == [g EXCEPT !.next[n] = at, !.prev[n] = g.prev[at], !.prev[at] = n, !.count = @ + 1]
            IN IF last = 0 THEN [g1 EXCEPT !.head = n] ELSE IF Design = "unlinked" THEN g1 ELSE [g1 EXCEPT !.next[last] = n]
       ELSE Before(g, n, at, d)
Sort(g, d) ==
  IF g.count # 0
  THEN IF Key(g.dat[g.tail]) <= Key(d) THEN PutLast(g, d) ELSE Before(Alloc(g, d), New(g), 0, d)
  ELSE [Alloc(g, d) EXCEPT !.head = New(g), !.tail = New(g), !.count = 1]
Detach(g, n) ==
  LET p == g.prev[n] x == g.next[n]
      g1 == IF p # 0 THEN [g EXCEPT !.next[p] = x] ELSE [g EXCEPT !.head = x]
  IN IF x # 0 THEN [g1 EXCEPT !.prev[x] = p] ELSE [g1 EXCEPT !.tail = p]
TakeOut(g, n) == [Release(Detach(g, n), n) EXCEPT !.count = @ - 1]
TakeFirst(g) ==
  LET n == g.head
      g1 == [g EXCEPT !.head = g.next[n]]
      g2 == IF g1.head # 0 THEN [g1 EXCEPT !.prev[g1.head] = 0] ELSE IF Design = "tail" THEN g1 ELSE [g1 EXCEPT !.tail = 0]
  IN [Release(g2, n) EXCEPT !.count = @ - 1]
RECURSIVE Drop(_, _, _, _, _, _)
\* list_remove_by_data: own is the node whose data were handed to the call, it goes last
Drop(g, it, k, all, own, gone) ==
  IF it = 0 THEN <<g, gone>>
  ELSE IF Key(g.dat[it]) # k THEN Drop(g, g.next[it], k, all, own, gone)
  ELSE LET g1 == IF it = own THEN g ELSE TakeOut(g, it) IN
       IF all THEN Drop(g1, g.next[it], k, all, own, Append(gone, it)) ELSE <<g1, Append(gone, it)>>

\* ---- calls
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Freed(s) == IF hasFree THEN SelectSeq(s, LAMBDA d : d # 0) ELSE <<>>
Room == Cardinality({n \in Node : h.dat[n] # NoData}) < MaxLen
Same == UNCHANGED <<hasFree, alive>>
Init == h = Empty /\ hasFree \in BOOLEAN /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>)
Ins(name, d, g) == alive /\ Room /\ h' = g /\ op' = Call(name, <<d>>, Pos(g, New(h)), <<>>) /\ Same
Ordered(s) == \A i \in 1 .. Len(s) - 1 : Key(s[i]) <= Key(s[i + 1])
\* every data handed to a list is an object of its own: one with this number is stored at most once
Fresh(d) == d = 0 \/ \A n \in Node : h.dat[n] # d
Rm(i) == alive /\ i \in 1 .. h.count /\ LET n == Items(h)[i] IN h' = TakeOut(h, n) /\ op' = Call("Remove", <<i>>, 0, Freed(<<h.dat[n]>>)) /\ Same
RmData(k, all) ==
  /\ alive
  /\ LET r == Drop(h, h.head, k, all, 0, <<>>) IN
     h' = r[1] /\ op' = Call("RemoveByData", <<k, IF all THEN 1 ELSE 0>>, 0, Freed([i \in 1 .. Len(r[2]) |-> h.dat[r[2][i]]]))
  /\ Same
RmOwn(i, all) ==
  /\ alive /\ i \in 1 .. h.count
  /\ LET n == Items(h)[i]
         r == Drop(h, h.head, Key(h.dat[n]), all, n, <<>>)
         hit == \E j \in 1 .. Len(r[2]) : r[2][j] = n
     IN /\ h' = IF hit THEN TakeOut(r[1], n) ELSE r[1]
        /\ op' = Call("RemoveOwn", <<i, IF all THEN 1 ELSE 0>>, 0, Freed([j \in 1 .. Len(r[2]) |-> h.dat[r[2][j]]]))
  /\ Same
PopFirst == alive /\ (IF h.head = 0 THEN h' = h /\ op' = Call("Pop", <<>>, 0, <<>>) ELSE h' = TakeFirst(h) /\ op' = Call("Pop", <<>>, h.dat[h.head], <<>>)) /\ Same
Clear == alive /\ h' = Empty /\ op' = Call("Clear", <<>>, 0, Freed(Values(h))) /\ Same
\* list_find: from both ends (or from an item) at once
RECURSIVE Meet(_, _, _)
Meet(b, e, k) == IF b = 0 THEN 0 ELSE IF Key(h.dat[b]) = k THEN b ELSE IF Key(h.dat[e]) = k THEN e
                 ELSE IF h.next[b] = e THEN 0 ELSE Meet(h.next[b], h.prev[e], k)
Look(off, k) ==
  /\ alive /\ off \in 0 .. h.count
  /\ LET r == IF h.head = 0 THEN 0 ELSE Meet(IF off = 0 THEN h.head ELSE Items(h)[off], h.tail, k)
     IN op' = Call("Find", <<off, k>>, IF r = 0 THEN 0 ELSE Pos(h, r), <<>>)
  /\ UNCHANGED h /\ Same
Next ==
  \/ \E d \in Data : Fresh(d) /\ (Ins("Append", d, PutLast(h, d)) \/ Ins("Prepend", d, PutFirst(h, d)) \/ (Ordered(Values(h)) /\ Ins("InsertSorted", d, Sort(h, d))))
  \/ \E i \in 1 .. MaxLen : Rm(i) \/ \E a \in BOOLEAN : RmOwn(i, a)
  \/ \E k \in Keys : (\E a \in BOOLEAN : RmData(k, a)) \/ (\E o \in 0 .. MaxLen : Look(o, k))
  \/ PopFirst \/ Clear
Spec == Init /\ [][Next]_vars

\* ---- what is checked
L == INSTANCE List WITH data <- Values(h), FirstOnly <- FALSE,
       OpNames <- {"Append", "Prepend", "InsertSorted", "Remove", "RemoveByData", "RemoveOwn", "Pop", "Clear", "Find"}
\* a step has to be the call of List which op' names
Step == LET a == op'.args IN
  CASE op'.name = "Append" -> L!PushBack(a[1])
    [] op'.name = "Prepend" -> L!PushFront(a[1])
    [] op'.name = "InsertSorted" -> L!InsertSorted(a[1])
    [] op'.name = "Remove" -> L!RemoveItem(a[1])
    [] op'.name = "RemoveByData" -> L!RemoveByData(a[1], a[2] = 1)
    [] op'.name = "RemoveOwn" -> L!RemoveOwn(a[1], a[2] = 1)
    [] op'.name = "Pop" -> L!Pop
    [] op'.name = "Clear" -> L!Clear
    [] op'.name = "Find" -> L!Find(a[1], a[2])
Refines == L!Init /\ [][Step]_vars
Linked == /\ h.count = Len(Items(h))
          /\ Bwd(h, h.tail, MaxLen + 2) = Reverse(Items(h))
          /\ {n \in Node : h.dat[n] # NoData} = {Items(h)[i] : i \in 1 .. Len(Items(h))}
View == <<h, hasFree, alive>>
=============================================================================
