------------------------------ MODULE PoolBulk ------------------------------
(***************************************************************************)
(* A MemoryPool serving thousands of items.  The items are taken and given *)
(* back in groups of different sizes, in different orders.                 *)
(*   Reuse = FALSE (P01): live items never overlap and keep their contents *)
(*   Reuse = TRUE  (P02): fresh memory is used only if more items are in   *)
(*                        use than ever before, and no more blocks are     *)
(*                        requested than needed for the peak               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Groups,     \* names 1 .. n
          Lens,       \* size of a group is a function of its name, see LenOf
          Tokens, Orders, BlockSize, Reuse, OpNames
VARIABLES held, peak, alive, op
vars == <<held, peak, alive, op>>
\* the sizes in ascending order, used in turn
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
LenOf(g) == LET a == Asc(Lens) IN a[1 + ((g - 1) % Len(a))]
RECURSIVE Sum(_, _)
Sum(h, g) == IF g = 0 THEN 0 ELSE Sum(h, g - 1) + (IF h[g] # 0 THEN LenOf(g) ELSE 0)
Live(h) == Sum(h, Cardinality(Groups))
Max(a, b) == IF a > b THEN a ELSE b
Blocks(n) == Max(1, (n + BlockSize - 1) \div BlockSize)
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
Use(n) == alive /\ n \in OpNames
Init == held = [g \in Groups |-> 0] /\ peak = 0 /\ alive = TRUE /\ op = Call("none", <<>>, <<>>)
\* result: fresh addresses used, live items apart from each other, block bound kept
Alloc(g, v) ==
  /\ Use("Alloc") /\ held[g] = 0
  /\ held' = [held EXCEPT ![g] = v]
  /\ peak' = Max(peak, Live(held'))
  /\ op' = Call("Alloc", <<g, LenOf(g), v, Blocks(peak')>>, <<IF Reuse THEN peak' - peak ELSE 0, 1, 1>>)
  /\ UNCHANGED alive
GiveBack(g, o) ==
  /\ Use("Free") /\ held[g] # 0
  /\ held' = [held EXCEPT ![g] = 0]
  /\ op' = Call("Free", <<g, LenOf(g), o, Blocks(peak)>>, <<0, 1, 1>>)
  /\ UNCHANGED <<peak, alive>>
Write(g, v) ==
  /\ Use("Write") /\ held[g] \notin {0, v}
  /\ held' = [held EXCEPT ![g] = v] /\ op' = Call("Write", <<g, LenOf(g), v>>, <<0, 1, 1>>)
  /\ UNCHANGED <<peak, alive>>
Destroy == Use("Destroy") /\ held' = [g \in Groups |-> 0] /\ peak' = 0 /\ alive' = FALSE /\ op' = Call("Destroy", <<>>, <<0, 1, 1>>)
Next == Destroy \/ \E g \in Groups : (\E v \in Tokens : Alloc(g, v) \/ Write(g, v)) \/ \E o \in Orders : GiveBack(g, o)
Spec == Init /\ [][Next]_vars
Obs == IF ~alive THEN [dead |-> TRUE] ELSE [dead |-> FALSE, held |-> held]
TypeOK == held \in [Groups -> Tokens \cup {0}] /\ peak >= Live(held)
\* fresh addresses are only used beyond the peak: in total as many as the peak
PeakOnly == [][Reuse /\ op'.name = "Alloc" => op'.res[1] <= LenOf(op'.args[1]) /\ (op'.res[1] > 0 => peak' = Live(held'))]_vars
View == <<held, peak, alive>>
StateRec == [obs |-> Obs, hid |-> [p |-> peak]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
