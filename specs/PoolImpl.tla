------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The algorithm of pool.c: blocks of items handed out one after the       *)
(* other, and blocks of pointers which remember the items given back.      *)
(* TLC checks that it implements Pool with Reuse (Refines): live items are *)
(* separate, items given back are used again before a block is requested,  *)
(* and the number of blocks stays within Pool's bound.                     *)
(*                                                                         *)
(* An item is a number: (block - 1) * BlockSize + place in the block.      *)
(* Designs "lost" (a full block of pointers is dropped), "again" (an item  *)
(* stays in the block of pointers when it is handed out) and "fresh"       *)
(* (items given back are used only when the current block is used up) have *)
(* to be refuted.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxItems, Tokens, BlockSize, Design
VARIABLES blocks,   \* number of blocks of items
          offset,   \* items handed out from the newest block
          ptrs,     \* blocks of pointers, newest first; each one a stack, its top last
          bytes,    \* what the user wrote, by item (0: not in use)
          alive, peak, op
vars == <<blocks, offset, ptrs, bytes, alive, peak, op>>
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
Max(a, b) == IF a > b THEN a ELSE b
InUse == {a \in 1 .. MaxItems : bytes[a] # 0}
Bound(p) == Max(1, (p + BlockSize - 1) \div BlockSize)
Handed == (blocks - 1) * BlockSize + offset

Init == blocks = 1 /\ offset = 0 /\ ptrs = <<>> /\ bytes = [a \in 1 .. MaxItems |-> 0] /\ alive = TRUE /\ peak = 0 /\ op = Call("none", <<>>, <<>>)
Detached == ptrs # <<>> /\ (Design = "fresh" => offset = BlockSize)
Give(a, v, b) ==
  /\ bytes' = [bytes EXCEPT ![a] = v]
  /\ peak' = Max(peak, Cardinality(InUse \cup {a}))
  /\ op' = Call("Alloc", <<v, Bound(peak')>>, <<a, IF b <= Bound(peak') THEN 1 ELSE 0>>)
  /\ UNCHANGED alive
Alloc(v) ==
  /\ alive
  /\ IF Detached
     THEN LET top == Head(ptrs) a == top[Len(top)]
              rest == SubSeq(top, 1, Len(top) - 1)
          IN /\ ptrs' = IF Design = "again" /\ rest # <<>> THEN ptrs ELSE IF rest = <<>> THEN Tail(ptrs) ELSE <<rest>> \o Tail(ptrs)
             /\ UNCHANGED <<blocks, offset>> /\ Give(a, v, blocks)
     ELSE IF offset < BlockSize
     THEN Handed < MaxItems /\ offset' = offset + 1 /\ UNCHANGED <<blocks, ptrs>> /\ Give(Handed + 1, v, blocks)
     ELSE Handed < MaxItems /\ blocks' = blocks + 1 /\ offset' = 1 /\ UNCHANGED ptrs /\ Give(Handed + 1, v, blocks + 1)
GiveBack(a) ==
  /\ alive /\ bytes[a] # 0
  /\ ptrs' = IF ptrs = <<>> THEN <<<<a>>>>
             ELSE IF Len(Head(ptrs)) = BlockSize THEN <<<<a>>>> \o (IF Design = "lost" THEN <<>> ELSE ptrs)
             ELSE <<Append(Head(ptrs), a)>> \o Tail(ptrs)
  /\ bytes' = [bytes EXCEPT ![a] = 0]
  /\ op' = Call("Free", <<a, Bound(peak)>>, <<0, 1>>)
  /\ UNCHANGED <<blocks, offset, alive, peak>>
Write(a, v) ==
  /\ alive /\ bytes[a] # 0
  /\ bytes' = [bytes EXCEPT ![a] = v]
  /\ op' = Call("Write", <<a, v>>, <<>>)
  /\ UNCHANGED <<blocks, offset, ptrs, alive, peak>>
Next == (\E v \in Tokens : Alloc(v) \/ \E a \in 1 .. MaxItems : Write(a, v)) \/ (\E a \in 1 .. MaxItems : GiveBack(a))
Spec == Init /\ [][Next]_vars

P == INSTANCE Pool WITH item <- [a \in 1 .. Handed |-> bytes[a]], Reuse <- TRUE, OpNames <- {"Alloc", "Free", "Write"}
Refines == P!Spec
\* every item handed out is in use or remembered, once
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Complete == LET f == Flat(ptrs) IN Len(f) = Handed - Cardinality(InUse) /\ {f[i] : i \in 1 .. Len(f)} = (1 .. Handed) \ InUse
View == <<blocks, offset, ptrs, bytes, alive, peak>>
=============================================================================
