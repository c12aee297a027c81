------------------------------- MODULE List -------------------------------
(***************************************************************************)
(* A list (list.c, and slist.c with FirstOnly = TRUE) as its users see it: *)
(* a sequence of data, each carrying a key the compare function looks at,  *)
(* a free function that may or may not be there, and the life cycle of     *)
(* data: "caller owned", stored in the list, freed.                        *)
(*                                                                         *)
(* Data are integers: the key of d is d \div 10, d % 10 tells data with    *)
(* equal keys apart, 0 is the NULL pointer.                                *)
(*                                                                         *)
(* `op' records the last call: name, arguments, what it returned and the   *)
(* data the free function was applied to.  It is excluded from the VIEW.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Data,       \* data that may be inserted (0 = NULL)
          Keys,       \* keys that may be searched for
          MaxLen,     \* longest list explored
          FirstOnly,  \* find must return the first match (singly-linked list)
          OpNames     \* operations in use

VARIABLES data,       \* the stored data, head first
          hasFree,    \* was a free function given?
          alive,      \* FALSE once the list was destroyed
          op          \* the last call (observation only)
vars == <<data, hasFree, alive, op>>

Key(d) == d \div 10
Sorted(s) == \A i \in 1 .. Len(s) - 1 : Key(s[i]) <= Key(s[i + 1])
NonNull(s) == SelectSeq(s, LAMBDA d : d # 0)
Freed(s) == IF hasFree THEN NonNull(s) ELSE <<>>
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Use(n) == alive /\ n \in OpNames
Room == Len(data) < MaxLen
Seq0(n) == IF n = 0 THEN <<0>> ELSE <<n>>

Init ==
  /\ data = <<>>
  /\ hasFree \in BOOLEAN
  /\ alive = TRUE
  /\ op = Call("none", <<>>, 0, <<>>)

Same == UNCHANGED <<hasFree, alive>>

\* The insertions return the new item; what is observed is its position.
PushBack(d) ==
  /\ Use("Append") /\ Room
  /\ data' = Append(data, d)
  /\ op' = Call("Append", <<d>>, Len(data) + 1, <<>>)
  /\ Same
PushFront(d) ==
  /\ Use("Prepend") /\ Room
  /\ data' = <<d>> \o data
  /\ op' = Call("Prepend", <<d>>, 1, <<>>)
  /\ Same
\* among equal data any position is fine
InsertSorted(d) ==
  /\ Use("InsertSorted") /\ Room /\ Sorted(data)
  /\ \E p \in 1 .. Len(data) + 1 :
       /\ data' = InsertAt(data, p, d)
       /\ Sorted(data')
       /\ op' = Call("InsertSorted", <<d>>, p, <<>>)
  /\ Same
RemoveItem(i) ==
  /\ Use("Remove") /\ i \in 1 .. Len(data)
  /\ data' = RemoveAt(data, i)
  /\ op' = Call("Remove", <<i>>, 0, Freed(<<data[i]>>))
  /\ Same
\* all items, or the first one, whose data have key k
Without(k, all, call) ==
  /\ LET hit == {i \in 1 .. Len(data) : Key(data[i]) = k}
         rm == IF all \/ hit = {} THEN hit ELSE {CHOOSE i \in hit : \A j \in hit : i <= j}
         keep == SelectSeq([i \in 1 .. Len(data) |-> i], LAMBDA i : i \notin rm)
         gone == SelectSeq([i \in 1 .. Len(data) |-> i], LAMBDA i : i \in rm)
     IN /\ data' = [j \in 1 .. Len(keep) |-> data[keep[j]]]
        /\ op' = [call EXCEPT !.freed = Freed([j \in 1 .. Len(gone) |-> data[gone[j]]])]
  /\ Same
Flag(b) == IF b THEN 1 ELSE 0
RemoveByData(k, all) == Use("RemoveByData") /\ Without(k, all, Call("RemoveByData", <<k, Flag(all)>>, 0, <<>>))
\* the data looked for are the stored data of an item themselves, which the call frees
RemoveOwn(i, all) ==
  Use("RemoveOwn") /\ i \in 1 .. Len(data) /\ Without(Key(data[i]), all, Call("RemoveOwn", <<i, Flag(all)>>, 0, <<>>))
Pop ==
  /\ Use("Pop")
  /\ data' = IF data = <<>> THEN data ELSE Tail(data)
  /\ op' = Call("Pop", <<>>, IF data = <<>> THEN 0 ELSE Head(data), <<>>)
  /\ Same
Clear ==
  /\ Use("Clear")
  /\ data' = <<>>
  /\ op' = Call("Clear", <<>>, 0, Freed(data))
  /\ Same
\* off = 0: search from the head; otherwise from the off-th item on
Find(off, k) ==
  /\ Use("Find") /\ off \in 0 .. Len(data)
  /\ LET hit == {i \in 1 .. Len(data) : i >= off /\ Key(data[i]) = k}
         ok == IF FirstOnly THEN {i \in hit : \A j \in hit : i <= j} ELSE hit
     IN IF hit = {} THEN op' = Call("Find", <<off, k>>, 0, <<>>)
                    ELSE \E i \in ok : op' = Call("Find", <<off, k>>, i, <<>>)
  /\ UNCHANGED data /\ Same
Has(k) ==
  /\ Use("Contains")
  /\ op' = Call("Contains", <<k>>, IF \E i \in 1 .. Len(data) : Key(data[i]) = k THEN 1 ELSE 0, <<>>)
  /\ UNCHANGED data /\ Same
\* the data of an item is freed, the item stays
FreeData(i) ==
  /\ Use("FreeData") /\ i \in 1 .. Len(data)
  /\ data' = [data EXCEPT ![i] = 0]
  /\ op' = Call("FreeData", <<i>>, 0, Freed(<<data[i]>>))
  /\ Same
\* the data of an item is exchanged, the caller gets the old data
SetData(i, d) ==
  /\ Use("SetData") /\ i \in 1 .. Len(data)
  /\ data' = [data EXCEPT ![i] = d]
  /\ op' = Call("SetData", <<i, d>>, data[i], <<>>)
  /\ Same
\* list_free + list_init: the same object starts again
Restart ==
  /\ Use("Restart")
  /\ data' = <<>>
  /\ op' = Call("Restart", <<>>, 0, Freed(data))
  /\ Same
Destroy ==
  /\ Use("Destroy")
  /\ data' = <<>> /\ alive' = FALSE
  /\ op' = Call("Destroy", <<>>, 0, Freed(data))
  /\ UNCHANGED hasFree

Next ==
  \/ \E d \in Data : PushBack(d) \/ PushFront(d) \/ InsertSorted(d)
  \/ \E i \in 1 .. MaxLen : RemoveItem(i) \/ FreeData(i) \/ (\E a \in BOOLEAN : RemoveOwn(i, a)) \/ \E d \in Data : SetData(i, d)
  \/ \E k \in Keys : Has(k) \/ (\E a \in BOOLEAN : RemoveByData(k, a)) \/ (\E o \in 0 .. MaxLen : Find(o, k))
  \/ Pop \/ Clear \/ Restart \/ Destroy

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the users can see of a list.                                       *)
(***************************************************************************)
Obs == IF ~alive THEN [dead |-> TRUE]
       ELSE [dead |-> FALSE, fwd |-> data, bwd |-> Reverse(data), count |-> Len(data), empty |-> data = <<>>,
             head |-> IF data = <<>> THEN -1 ELSE data[1], tail |-> IF data = <<>> THEN -1 ELSE data[Len(data)],
             handles |-> TRUE]

(***************************************************************************)
(* Properties of the specification.                                        *)
(***************************************************************************)
TypeOK == /\ data \in Seq(Data \cup {0}) /\ Len(data) <= MaxLen /\ hasFree \in BOOLEAN /\ alive \in BOOLEAN
Count(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
\* data never disappears or appears: what was stored is stored, freed, returned to the caller or (no free function) dropped
Conservation ==
  [][ LET n == op'.name
          in(x) == IF n \in {"Append", "Prepend", "InsertSorted"} /\ op'.args[1] = x THEN 1
                   ELSE IF n = "SetData" /\ op'.args[2] = x THEN 1 ELSE 0
          out(x) == IF n \in {"Pop", "SetData"} /\ op'.res = x THEN 1 ELSE 0
      IN hasFree => \A x \in Data \ {0} : Count(data, x) + in(x) = Count(data', x) + Count(op'.freed, x) + out(x) ]_vars
SortedKept == [][op'.name = "InsertSorted" => Sorted(data')]_vars
NeverFreeStored == [][op'.name \in {"Pop", "Find", "Contains", "Append", "Prepend", "InsertSorted", "SetData"} => op'.freed = <<>>]_vars
NoFreeFunction == [][~hasFree => op'.freed = <<>>]_vars

(***************************************************************************)
(* Printing the transition relation.                                       *)
(***************************************************************************)
View == <<data, hasFree, alive>>
StateRec == [obs |-> Obs, hid |-> [f |-> hasFree]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
