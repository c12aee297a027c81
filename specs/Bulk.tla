-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* A large map and the cost of its operations.  The keys are consecutive   *)
(* integers in NBlocks blocks of BlockLen keys; whole blocks are inserted, *)
(* replaced, removed and looked up in different orders.  The cost of a     *)
(* call is the number of stored keys it compares.                          *)
(*   hash:  at most two stored keys per lookup, provided the stored hash   *)
(*          values are consecutive (Window); entries <= buckets + 1        *)
(*   tree:  at most 2 * log2(n+1) + 1 keys per call on n keys              *)
(*   array: at most floor(log2(n)) + 1 keys per lookup among n keys        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NBlocks, BlockLen, Kind, Orders, OpNames
VARIABLES present, alive, op
vars == <<present, alive, op>>
Blocks == 1 .. NBlocks
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* floor(2 * log2(m)); 1.4142 stands for the square root of 2
TwiceLog2(m) == LET k == Log2(m) IN IF (m * 10000) \div Pow2(k) >= 14142 THEN 2 * k + 1 ELSE 2 * k
Bound(n) == CASE Kind = "hash" -> 2
              [] Kind = "tree" -> TwiceLog2(n + 1) + 1
              [] Kind = "array" -> IF n = 0 THEN 0 ELSE Log2(n) + 1
\* what is known about the cost of modifying calls (if anything)
NoBound == 1000000000
ModBound(n) == IF Kind = "tree" THEN Bound(n) ELSE NoBound
Size(p) == Cardinality(p) * BlockLen
Window(p) == Kind = "hash" => \A a, b \in p : \A c \in a .. b : c \in p
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
Use(n) == alive /\ n \in OpNames
Init == present = {} /\ alive = TRUE /\ op = Call("none", <<>>, <<>>)
\* args: block, order, cost of the insertions, cost of lookups made in between
Insert(b, o) ==
  /\ Use("Insert") /\ b \notin present /\ Window(present \cup {b})
  /\ present' = present \cup {b}
  /\ op' = Call("Insert", <<b, o, ModBound(Size(present')), Bound(Size(present'))>>, [new |-> BlockLen, ok |-> TRUE])
  /\ UNCHANGED alive
Replace(b, o) ==
  /\ Use("Replace") /\ b \in present
  /\ op' = Call("Replace", <<b, o, ModBound(Size(present)), Bound(Size(present))>>, [new |-> 0, ok |-> TRUE])
  /\ UNCHANGED <<present, alive>>
Remove(b, o) ==
  /\ Use("Remove") /\ b \in present /\ Window(present \ {b})
  /\ present' = present \ {b}
  /\ op' = Call("Remove", <<b, o, ModBound(Size(present)), Bound(Size(present))>>, [new |-> -BlockLen, ok |-> TRUE])
  /\ UNCHANGED alive
\* every key is looked up, those of absent blocks too
Probe ==
  /\ Use("Probe")
  /\ op' = Call("Probe", <<Bound(Size(present))>>, [hits |-> Size(present), ok |-> TRUE])
  /\ UNCHANGED <<present, alive>>
Clear == Use("Clear") /\ present' = {} /\ op' = Call("Clear", <<>>, <<>>) /\ UNCHANGED alive
Destroy == Use("Destroy") /\ present' = {} /\ alive' = FALSE /\ op' = Call("Destroy", <<>>, <<>>)
Next == Probe \/ Clear \/ Destroy \/ \E b \in Blocks, o \in Orders : Insert(b, o) \/ Remove(b, o) \/ Replace(b, o)
Spec == Init /\ [][Next]_vars
Obs == IF ~alive THEN [dead |-> TRUE] ELSE [dead |-> FALSE, count |-> Size(present), packed |-> TRUE]
TypeOK == present \subseteq Blocks
\* the bounds are what they should be: logarithmic, and those of the tree and of the array never contradict each other
BoundsOK == /\ \A m \in 1 .. 64 : /\ Pow2(Log2(m)) <= m /\ 2 * Pow2(Log2(m)) > m
                                  /\ m < 46 => LET t == TwiceLog2(m) IN t < 13 => (Pow2(t) <= m * m /\ m * m < 2 * Pow2(t) + 1)
View == <<present, alive>>
StateRec == [obs |-> Obs, hid |-> [p |-> [b \in Blocks |-> IF b \in present THEN 1 ELSE 0]]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
