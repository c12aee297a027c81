-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A MemoryPool (pool.c).  Addresses are numbered in the order in which    *)
(* they appear for the first time; item[a] is what the user wrote into the *)
(* item at address a, 0 if it is given back.                               *)
(*                                                                         *)
(* Reuse = TRUE: a freed item is handed out again before a fresh address   *)
(* (P02).  Reuse = FALSE leaves that open: only the separation and         *)
(* stability of live items is specified (P01).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxItems, Tokens, BlockSize, Reuse, OpNames
VARIABLES item, alive, peak, op
vars == <<item, alive, peak, op>>

Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
Use(n) == alive /\ n \in OpNames
Live(s) == {a \in 1 .. Len(s) : s[a] # 0}
Free(s) == {a \in 1 .. Len(s) : s[a] = 0}
Max(a, b) == IF a > b THEN a ELSE b
\* blocks of items a pool may have requested when h items have been in use at once at most
Blocks(h) == Max(1, (h + BlockSize - 1) \div BlockSize)
Init == item = <<>> /\ alive = TRUE /\ peak = 0 /\ op = Call("none", <<>>, <<>>)

\* args: what the user writes, the bound on the blocks; result: the address and whether the bound was kept
Alloc(v) ==
  /\ Use("Alloc") /\ (Len(item) < MaxItems \/ (Reuse /\ Free(item) # {}))
  /\ LET again == {[item EXCEPT ![a] = v] : a \in Free(item)}
         p == Max(peak, Cardinality(Live(item)) + 1)
         Give(a, s) == item' = s /\ op' = Call("Alloc", <<v, Blocks(p)>>, <<a, 1>>) /\ peak' = p
     IN \/ \E a \in Free(item) : Give(a, [item EXCEPT ![a] = v])
        \/ (Free(item) = {} \/ ~Reuse) /\ Give(Len(item) + 1, Append(item, v))
  /\ UNCHANGED alive
GiveBack(a) ==
  /\ Use("Free") /\ a \in Live(item)
  /\ item' = [item EXCEPT ![a] = 0]
  /\ op' = Call("Free", <<a, Blocks(peak)>>, <<0, 1>>)
  /\ UNCHANGED <<alive, peak>>
Write(a, v) ==
  /\ Use("Write") /\ a \in Live(item)
  /\ item' = [item EXCEPT ![a] = v]
  /\ op' = Call("Write", <<a, v>>, <<>>)
  /\ UNCHANGED <<alive, peak>>
Destroy == Use("Destroy") /\ alive' = FALSE /\ item' = <<>> /\ peak' = 0 /\ op' = Call("Destroy", <<>>, <<>>)
Next == (\E v \in Tokens : Alloc(v) \/ \E a \in 1 .. MaxItems : Write(a, v)) \/ (\E a \in 1 .. MaxItems : GiveBack(a)) \/ Destroy
Spec == Init /\ [][Next]_vars

Obs == IF ~alive THEN [dead |-> TRUE] ELSE [dead |-> FALSE, items |-> item]
TypeOK == item \in Seq(Tokens \cup {0}) /\ Len(item) <= MaxItems
\* the number of distinct addresses is the largest number of items in use at once
Footprint == Reuse => Len(item) = peak
\* operations change the item they are about, nothing else
Stable == [][ alive' => \A a \in 1 .. Len(item) : item'[a] # item[a] =>
                (op'.name \in {"Free", "Write"} /\ op'.args[1] = a) \/ (op'.name = "Alloc" /\ op'.res[1] = a /\ item[a] = 0) ]_vars
View == <<item, alive, peak>>
StateRec == [obs |-> Obs, hid |-> [p |-> peak, i |-> item, b |-> BlockSize]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
