------------------------------ MODULE LifoFifo ------------------------------
(***************************************************************************)
(* A stack (stack.h) or, with Fifo, a queue (queue.h) of data pointers.    *)
(* Data are positive integers, 0 is the NULL pointer (which may be stored).*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Data, MaxLen, Fifo, OpNames
VARIABLES data,     \* next to be popped first
          hasFree, alive, op,
          pushed, popped  \* history: data pushed and popped since the last clear (for the order property)
vars == <<data, hasFree, alive, op, pushed, popped>>

NonNull(s) == SelectSeq(s, LAMBDA d : d # 0)
Freed(s) == IF hasFree THEN NonNull(s) ELSE <<>>
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Use(n) == alive /\ n \in OpNames
Init == /\ data = <<>> /\ hasFree \in BOOLEAN /\ alive = TRUE /\ op = Call("none", <<>>, <<>>, <<>>)
        /\ pushed = <<>> /\ popped = <<>>
Same == UNCHANGED <<hasFree, alive>>

Push(d) ==
  /\ Use("Push") /\ Len(data) < MaxLen
  /\ data' = IF Fifo THEN Append(data, d) ELSE <<d>> \o data
  /\ op' = Call("Push", <<d>>, <<>>, <<>>)
  /\ pushed' = Append(pushed, d) /\ UNCHANGED popped /\ Same
\* result: success, and what the output pointer holds afterwards
Pop ==
  /\ Use("Pop")
  /\ IF data = <<>> THEN /\ op' = Call("Pop", <<>>, <<0, 0>>, <<>>)
                         /\ UNCHANGED <<data, pushed, popped>>
     ELSE /\ op' = Call("Pop", <<>>, <<1, Head(data)>>, <<>>)
          /\ data' = Tail(data)
          /\ popped' = Append(popped, Head(data)) /\ UNCHANGED pushed
  /\ Same
\* result: success, and the data if there is some
Peek ==
  /\ Use("Head")
  /\ op' = Call("Head", <<>>, IF data = <<>> THEN <<0>> ELSE <<1, Head(data)>>, <<>>)
  /\ UNCHANGED <<data, pushed, popped>> /\ Same
Emptied(n) == /\ data' = <<>> /\ op' = Call(n, <<>>, <<>>, Freed(data)) /\ pushed' = <<>> /\ popped' = <<>>
Clear == Use("Clear") /\ Emptied("Clear") /\ Same
Restart == Use("Restart") /\ Emptied("Restart") /\ Same
Destroy == Use("Destroy") /\ Emptied("Destroy") /\ alive' = FALSE /\ UNCHANGED hasFree
Next == Pop \/ Peek \/ Clear \/ Restart \/ Destroy \/ \E d \in Data : Push(d)
Spec == Init /\ [][Next]_vars

Obs == IF ~alive THEN [dead |-> TRUE]
       ELSE [dead |-> FALSE, count |-> Len(data), top |-> IF data = <<>> THEN -1 ELSE Head(data)]

(* Properties of the specification *)
TypeOK == data \in Seq(Data) /\ Len(data) <= MaxLen
CountOK == Len(data) = Len(pushed) - Len(popped)
\* first in, first out: what was popped and what is stored is what was pushed, in that order
Order == Fifo => pushed = popped \o data
\* last in, first out: a successful pop undoes the last push that was not undone
Undo == [][ (~Fifo /\ op'.name = "Push" => Tail(data') = data) /\ (~Fifo /\ op'.name = "Pop" /\ op'.res[1] = 1 => <<op'.res[2]>> \o data' = data) ]_vars
Conservation == [][ hasFree => \A x \in Data \ {0} :
     LET C(s) == Cardinality({i \in 1 .. Len(s) : s[i] = x}) IN
     C(data) + (IF op'.name = "Push" /\ op'.args[1] = x THEN 1 ELSE 0) = C(data') + C(op'.freed) + (IF op'.name = "Pop" /\ op'.res[2] = x THEN 1 ELSE 0) ]_vars

View == <<data, hasFree, alive>>
HistBound == Len(pushed) <= MaxLen + 3    \* for checking with the histories in the state
StateRec == [obs |-> Obs, hid |-> [f |-> hasFree, d |-> data]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
