------------------------------ MODULE SListImpl ------------------------------
(***************************************************************************)
(* The algorithm of slist.c: singly linked nodes, a head and a tail        *)
(* pointer and a counter.  TLC checks that it implements List (Refines)    *)
(* and that links and tail are right in every reachable state (Linked).    *)
(*                                                                         *)
(* Designs "tail" (the tail pointer is forgotten when the last item is     *)
(* taken off the head), "behind" (removing the last item leaves the tail   *)
(* pointer) and "over" (removal by data passes over the item behind a      *)
(* removed one) have to be refuted.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Data, Keys, MaxLen, Design
VARIABLES h,        \* next, dat: functions of nodes; head, tail, count
          hasFree, alive, op
vars == <<h, hasFree, alive, op>>

Node == 1 .. MaxLen + 1
NoData == -1     \* dat of a node that is not allocated
Key(d) == d \div 10
Empty == [next |-> [n \in Node |-> 0], dat |-> [n \in Node |-> NoData], head |-> 0, tail |-> 0, count |-> 0]
New(g) == CHOOSE n \in Node : g.dat[n] = NoData /\ \A m \in Node : g.dat[m] = NoData => n <= m
Alloc(g, d) == [g EXCEPT !.dat[New(g)] = d, !.next[New(g)] = 0]
Release(g, n) == [g EXCEPT !.dat[n] = NoData, !.next[n] = 0]

RECURSIVE Fwd(_, _, _)
Fwd(g, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o Fwd(g, g.next[n], k - 1)
Items(g) == Fwd(g, g.head, MaxLen + 2)
Values(g) == [i \in 1 .. Len(Items(g)) |-> g.dat[Items(g)[i]]]
Pos(g, n) == LET w == {i \in 1 .. Len(Items(g)) : Items(g)[i] = n} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : TRUE

\* ---- the functions of slist.c; a place is the node whose next field is meant, 0: the head pointer
At(g, p) == IF p = 0 THEN g.head ELSE g.next[p]
Point(g, p, n) == IF p = 0 THEN [g EXCEPT !.head = n] ELSE [g EXCEPT !.next[p] = n]
PutLast(g0, d) ==
  LET n == New(g0) g == Alloc(g0, d) IN
  [(IF g.head # 0 THEN [g EXCEPT !.next[g.tail] = n] ELSE [g EXCEPT !.head = n]) EXCEPT !.tail = n, !.count = @ + 1]
PutFirst(g0, d) ==
  LET n == New(g0) g == [Alloc(g0, d) EXCEPT !.next[n] = g0.head] IN
  [(IF g.tail = 0 THEN [g EXCEPT !.tail = n] ELSE g) EXCEPT !.head = n, !.count = @ + 1]
RECURSIVE Before(_, _, _, _)
Before(g, n, p, d) ==
  LET at == At(g, p) IN
  IF at = 0 THEN [g EXCEPT !.count = @ + 1]
  ELSE IF Key(g.dat[at]) >= Key(d) THEN [Point([g EXCEPT !.next[n] = at], p, n) EXCEPT !.count = @ + 1]
  ELSE Before(g, n, at, d)
Sort(g, d) ==
  IF g.count # 0
  THEN IF Key(g.dat[g.tail]) <= Key(d) THEN PutLast(g, d) ELSE Before(Alloc(g, d), New(g), 0, d)
  ELSE [Alloc(g, d) EXCEPT !.head = New(g), !.tail = New(g), !.count = 1]
\* the item behind place p is unlinked; tail: the item in front
Unlink(g, p, tail) ==
  LET n == At(g, p) IN [Point(IF g.next[n] = 0 /\ Design # "behind" THEN [g EXCEPT !.tail = tail] ELSE g, p, g.next[n]) EXCEPT !.count = @ - 1]
RECURSIVE Take(_, _, _)
Take(g, n, p) == IF At(g, p) = 0 THEN g ELSE IF At(g, p) = n THEN Release(Unlink(g, p, p), n) ELSE Take(g, n, At(g, p))
TakeOut(g, n) == Take(g, n, 0)
TakeFirst(g) ==
  LET n == g.head
      g1 == [g EXCEPT !.head = g.next[n], !.count = @ - 1]
      g2 == IF g1.head = 0 /\ Design # "tail" THEN [g1 EXCEPT !.tail = 0] ELSE g1
  IN Release(g2, n)
RECURSIVE Drop(_, _, _, _, _, _)
\* slist_remove_by_data: own is the node whose data were handed to the call, it is released last
Drop(g, p, k, all, own, gone) ==
  LET at == At(g, p) IN
  IF at = 0 THEN <<g, gone>>
  ELSE IF Key(g.dat[at]) # k THEN Drop(g, at, k, all, own, gone)
  ELSE LET u == Unlink(g, p, p)
           g1 == IF at = own THEN u ELSE Release(u, at)
           q == IF Design = "over" /\ At(g1, p) # 0 THEN At(g1, p) ELSE p
       IN IF all THEN Drop(g1, q, k, all, own, Append(gone, at)) ELSE <<g1, Append(gone, at)>>

\* ---- calls
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Freed(s) == IF hasFree THEN SelectSeq(s, LAMBDA d : d # 0) ELSE <<>>
Room == Cardinality({n \in Node : h.dat[n] # NoData}) < MaxLen
Same == UNCHANGED <<hasFree, alive>>
Init == h = Empty /\ hasFree \in BOOLEAN /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>)
Ins(name, d, g) == alive /\ Room /\ h' = g /\ op' = Call(name, <<d>>, Pos(g, New(h)), <<>>) /\ Same
Ordered(s) == \A i \in 1 .. Len(s) - 1 : Key(s[i]) <= Key(s[i + 1])
\* every data handed to a list is an object of its own: one with this number is stored at most once
Fresh(d) == d = 0 \/ \A n \in Node : h.dat[n] # d
Rm(i) == alive /\ i \in 1 .. h.count /\ LET n == Items(h)[i] IN h' = TakeOut(h, n) /\ op' = Call("Remove", <<i>>, 0, Freed(<<h.dat[n]>>)) /\ Same
RmData(k, all) ==
  /\ alive
  /\ LET r == Drop(h, 0, k, all, 0, <<>>) IN
     h' = r[1] /\ op' = Call("RemoveByData", <<k, IF all THEN 1 ELSE 0>>, 0, Freed([i \in 1 .. Len(r[2]) |-> h.dat[r[2][i]]]))
  /\ Same
RmOwn(i, all) ==
  /\ alive /\ i \in 1 .. h.count
  /\ LET n == Items(h)[i]
         r == Drop(h, 0, Key(h.dat[n]), all, n, <<>>)
         hit == \E j \in 1 .. Len(r[2]) : r[2][j] = n
     IN /\ h' = IF hit THEN Release(r[1], n) ELSE r[1]
        /\ op' = Call("RemoveOwn", <<i, IF all THEN 1 ELSE 0>>, 0, Freed([j \in 1 .. Len(r[2]) |-> h.dat[r[2][j]]]))
  /\ Same
PopFirst == alive /\ (IF h.head = 0 THEN h' = h /\ op' = Call("Pop", <<>>, 0, <<>>) ELSE h' = TakeFirst(h) /\ op' = Call("Pop", <<>>, h.dat[h.head], <<>>)) /\ Same
Clear == alive /\ h' = Empty /\ op' = Call("Clear", <<>>, 0, Freed(Values(h))) /\ Same
RECURSIVE From(_, _)
From(b, k) == IF b = 0 THEN 0 ELSE IF Key(h.dat[b]) = k THEN b ELSE From(h.next[b], k)
Look(off, k) ==
  /\ alive /\ off \in 0 .. h.count
  /\ LET r == From(IF off = 0 THEN h.head ELSE Items(h)[off], k)
     IN op' = Call("Find", <<off, k>>, IF r = 0 THEN 0 ELSE Pos(h, r), <<>>)
  /\ UNCHANGED h /\ Same
Next ==
  \/ \E d \in Data : Fresh(d) /\ (Ins("Append", d, PutLast(h, d)) \/ Ins("Prepend", d, PutFirst(h, d)) \/ (Ordered(Values(h)) /\ Ins("InsertSorted", d, Sort(h, d))))
  \/ \E i \in 1 .. MaxLen : Rm(i) \/ \E a \in BOOLEAN : RmOwn(i, a)
  \/ \E k \in Keys : (\E a \in BOOLEAN : RmData(k, a)) \/ (\E o \in 0 .. MaxLen : Look(o, k))
  \/ PopFirst \/ Clear
Spec == Init /\ [][Next]_vars

\* ---- what is checked
L == INSTANCE List WITH data <- Values(h), FirstOnly <- TRUE,
       OpNames <- {"Append", "Prepend", "InsertSorted", "Remove", "RemoveByData", "RemoveOwn", "Pop", "Clear", "Find"}
\* a step has to be the call of List which op' names
Step == LET a == op'.args IN
  CASE op'.name = "Append" -> L!PushBack(a[1])
    [] op'.name = "Prepend" -> L!PushFront(a[1])
    [] op'.name = "InsertSorted" -> L!InsertSorted(a[1])
    [] op'.name = "Remove" -> L!RemoveItem(a[1])
    [] op'.name = "RemoveByData" -> L!RemoveByData(a[1], a[2] = 1)
    [] op'.name = "RemoveOwn" -> L!RemoveOwn(a[1], a[2] = 1)
    [] op'.name = "Pop" -> L!Pop
    [] op'.name = "Clear" -> L!Clear
    [] op'.name = "Find" -> L!Find(a[1], a[2])
Refines == L!Init /\ [][Step]_vars
Linked == /\ h.count = Len(Items(h))
          /\ h.tail = (IF Items(h) = <<>> THEN 0 ELSE Last(Items(h)))
          /\ {n \in Node : h.dat[n] # NoData} = {Items(h)[i] : i \in 1 .. Len(Items(h))}
View == <<h, hasFree, alive>>
=============================================================================
