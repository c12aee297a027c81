-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Very long containers: lists, stacks, queues and (one thread) the        *)
(* asynchronous queue with tens of thousands of items.  The items come in  *)
(* runs: the i-th item of run t is the pair (t, i), and what is stored is  *)
(* a sequence of segments <<t, lo, hi>>, the items lo, .., hi of run t     *)
(* (descending if hi < lo), neighbouring segments never continue each      *)
(* other.  Whole runs are added and taken; single items are removed at the *)
(* ends and in the middle ("dents", bounded so that the model is finite).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Tokens,    \* names of runs
          Sizes,     \* lengths of runs
          MaxDents,
          Kind,      \* "list", "slist", "stack", "queue"
          OpNames
VARIABLES segs, dents, hasFree, alive, op
vars == <<segs, dents, hasFree, alive, op>>
Abs(x) == IF x < 0 THEN -x ELSE x
SegLen(s) == Abs(s[3] - s[2]) + 1
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE SegLen(Head(q)) + Size(Tail(q))
Dir(s) == IF s[3] >= s[2] THEN 1 ELSE -1
Flip(s) == <<s[1], s[3], s[2]>>
Back(q) == [i \in 1 .. Len(q) |-> Flip(q[Len(q) + 1 - i])]
\* the k-th item (as a segment of length one)
RECURSIVE Item(_, _)
Item(q, k) == LET s == Head(q) IN IF k <= SegLen(s) THEN LET x == s[2] + Dir(s) * (k - 1) IN <<s[1], x, x>> ELSE Item(Tail(q), k - SegLen(s))
\* the first k items, and the others
RECURSIVE Take(_, _)
Take(q, k) == IF k = 0 THEN <<>>
              ELSE LET s == Head(q) IN IF k >= SegLen(s) THEN <<s>> \o Take(Tail(q), k - SegLen(s)) ELSE <<<<s[1], s[2], s[2] + Dir(s) * (k - 1)>>>>
RECURSIVE Drop(_, _)
Drop(q, k) == IF k = 0 THEN q
              ELSE LET s == Head(q) IN IF k >= SegLen(s) THEN Drop(Tail(q), k - SegLen(s)) ELSE <<<<s[1], s[2] + Dir(s) * k, s[3]>>>> \o Tail(q)
Used(q) == {q[i][1] : i \in 1 .. Len(q)}
\* the smallest free name, so that the model does not care about names
Fresh(t) == t \in Tokens \ Used(segs) /\ \A u \in Tokens : u < t => u \in Used(segs)
\* the names of the runs never descend
SortedRuns == \A i \in 1 .. Len(segs) - 1 : segs[i][1] <= segs[i + 1][1]
Up(s) == IF s[3] < s[2] THEN Flip(s) ELSE s
\* what the free function gets, order unspecified: ascending segments, put into the order of the items they are made of
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Freed(q) == IF hasFree THEN SetToSortSeq({Up(q[i]) : i \in 1 .. Len(q)}, Before) ELSE <<>>
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Use(n) == alive /\ n \in OpNames
Init == segs = <<>> /\ dents = 0 /\ hasFree \in BOOLEAN /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>)
Same == UNCHANGED <<hasFree, alive>>
Count == Size(segs)
Room == Len(segs) < Cardinality(Tokens) + MaxDents
\* every single removal counts, unless nothing is left
Dent(q) == dents' = IF q = <<>> THEN 0 ELSE dents + 1
Keep(q) == dents' = IF q = <<>> THEN 0 ELSE dents
AddBack(t, n) ==
  /\ Use("Append") /\ Room /\ Fresh(t)
  /\ segs' = segs \o <<<<t, 1, n>>>> /\ op' = Call("Append", <<t, n>>, 0, <<>>) /\ UNCHANGED dents /\ Same
AddFront(t, n) ==
  /\ Use("Prepend") /\ Room /\ Fresh(t)
  /\ segs' = <<<<t, n, 1>>>> \o segs /\ op' = Call("Prepend", <<t, n>>, 0, <<>>) /\ UNCHANGED dents /\ Same
\* one item goes where the sorted order wants it
AddSorted(t) ==
  /\ Use("InsertSorted") /\ Room /\ t \in Tokens \ Used(segs) /\ SortedRuns
  /\ LET p == Cardinality({i \in 1 .. Len(segs) : segs[i][1] < t})
     IN segs' = SubSeq(segs, 1, p) \o <<<<t, 1, 1>>>> \o SubSeq(segs, p + 1, Len(segs))
  /\ op' = Call("InsertSorted", <<t>>, 0, <<>>) /\ UNCHANGED dents /\ Same
\* k calls in a row; the last one finds nothing if k is the number of items plus one
PopMany(k) ==
  /\ Use("Pop")
  /\ LET n == IF k > Count THEN Count ELSE k
     IN /\ segs' = Drop(segs, n)
        /\ op' = Call("Pop", <<k>>, [got |-> Take(segs, n), rest |-> k - n], <<>>)
        /\ IF n < Count /\ n < SegLen(segs[1]) THEN dents < MaxDents /\ Dent(segs') ELSE Keep(segs')
  /\ Same
RemoveItem(i) ==
  /\ Use("Remove") /\ segs # <<>> /\ i \in 1 .. Count /\ dents < MaxDents
  /\ segs' = Take(segs, i - 1) \o Drop(segs, i)
  /\ op' = Call("Remove", <<i>>, 0, Freed(<<Item(segs, i)>>)) /\ Dent(segs') /\ Same
RemoveRun(t) ==
  /\ Use("RemoveByData")
  /\ segs' = SelectSeq(segs, LAMBDA s : s[1] # t)
  /\ op' = Call("RemoveByData", <<t, 1>>, 0, Freed(SelectSeq(segs, LAMBDA s : s[1] = t))) /\ Keep(segs') /\ Same
FirstOf(t) == 1 + Size(SubSeq(segs, 1, (CHOOSE i \in 1 .. Len(segs) : segs[i][1] = t /\ \A j \in 1 .. i - 1 : segs[j][1] # t) - 1))
RemoveOne(t) ==
  /\ Use("RemoveByData")
  /\ IF t \notin Used(segs)
     THEN op' = Call("RemoveByData", <<t, 0>>, 0, <<>>) /\ UNCHANGED <<segs, dents>>
     ELSE LET i == FirstOf(t)
          IN /\ dents < MaxDents
             /\ segs' = Take(segs, i - 1) \o Drop(segs, i)
             /\ op' = Call("RemoveByData", <<t, 0>>, 0, Freed(<<Item(segs, i)>>)) /\ Dent(segs')
  /\ Same
\* a singly-linked list finds the first item, a doubly-linked list any of them
Find(t) ==
  /\ Use("Find")
  /\ op' = Call("Find", <<t>>, IF t \notin Used(segs) THEN 0 ELSE IF Kind = "slist" THEN FirstOf(t) ELSE 1, <<>>)
  /\ UNCHANGED <<segs, dents>> /\ Same
Has(t) ==
  /\ Use("Contains")
  /\ op' = Call("Contains", <<t>>, IF t \in Used(segs) THEN 1 ELSE 0, <<>>)
  /\ UNCHANGED <<segs, dents>> /\ Same
Clear ==
  /\ Use("Clear") /\ segs' = <<>> /\ dents' = 0
  /\ op' = Call("Clear", <<>>, 0, Freed(segs)) /\ Same
Destroy ==
  /\ Use("Destroy") /\ segs' = <<>> /\ dents' = 0 /\ alive' = FALSE
  /\ op' = Call("Destroy", <<>>, 0, Freed(segs)) /\ UNCHANGED hasFree
Next ==
  \/ \E t \in Tokens : AddSorted(t) \/ RemoveRun(t) \/ RemoveOne(t) \/ Find(t) \/ Has(t) \/ \E n \in Sizes : AddBack(t, n) \/ AddFront(t, n)
  \/ \E k \in {1, Count - 1, Count, Count + 1} \cup (IF segs = <<>> THEN {} ELSE {SegLen(segs[1])}) : k >= 1 /\ PopMany(k)
  \/ \E i \in {1, Count} \cup {1 + Count \div 2} : RemoveItem(i)
  \/ Clear \/ Destroy
Spec == Init /\ [][Next]_vars
Linear == Kind \in {"list", "slist"}
Obs == IF ~alive THEN [dead |-> TRUE]
       ELSE IF Linear THEN [dead |-> FALSE, bwd |-> Back(segs), count |-> Count, fwd |-> segs,
                            head |-> IF segs = <<>> THEN <<>> ELSE Item(segs, 1), tail |-> IF segs = <<>> THEN <<>> ELSE Item(segs, Count)]
       ELSE [dead |-> FALSE, count |-> Count, head |-> IF segs = <<>> THEN <<>> ELSE Item(segs, 1)]
(***************************************************************************)
(* Properties of the specification.                                        *)
(***************************************************************************)
\* neighbouring segments never continue each other, so the segments are determined by the items
Joined(a, b) == a[1] = b[1] /\ (Abs(b[2] - a[3]) <= 1)
TypeOK == /\ \A i \in 1 .. Len(segs) : segs[i][1] \in Tokens /\ segs[i][2] >= 1 /\ segs[i][3] >= 1
          /\ \A i \in 1 .. Len(segs) - 1 : ~Joined(segs[i], segs[i + 1])
          /\ dents <= MaxDents
\* no item is stored twice
Covers(s, x) == Up(s)[2] <= x /\ x <= Up(s)[3]
NoTwice == \A i, j \in 1 .. Len(segs) : i # j /\ segs[i][1] = segs[j][1] => ~Covers(segs[i], segs[j][2]) /\ ~Covers(segs[j], segs[i][2])
\* items are stored, returned or freed
Conservation == [][ LET n == op'.name
                        in == IF n \in {"Append", "Prepend"} THEN op'.args[2] ELSE IF n = "InsertSorted" THEN 1 ELSE 0
                        out == IF n = "Pop" THEN Size(op'.res.got) ELSE 0
                    IN hasFree => Size(segs) + in = Size(segs') + out + Size(op'.freed) ]_vars
\* what was added last leaves first (stack), or what was added first (queue)
Order == [][op'.name = "Pop" => op'.res.got \o segs' = segs \/ Size(op'.res.got) + Size(segs') = Size(segs)]_vars
View == <<segs, dents, hasFree, alive>>
StateRec == [obs |-> Obs, hid |-> [f |-> hasFree, d |-> dents, s |-> segs]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
