------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Two strings that grow token by token; what the supplied functions have  *)
(* to say about them.  The harness maps tokens to bytes in several ways    *)
(* (plain, bytes above 127, long common prefixes, any alignment).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Tokens, MaxLen
VARIABLES a, b, op
vars == <<a, b, op>>
Call(n, x) == [name |-> n, args |-> x, res |-> 0, freed |-> <<>>]
Init == a = <<>> /\ b = <<>> /\ op = Call("none", <<>>)
GrowA(x) == Len(a) < MaxLen /\ a' = Append(a, x) /\ UNCHANGED b /\ op' = Call("GrowA", <<x>>)
GrowB(x) == Len(b) < MaxLen /\ b' = Append(b, x) /\ UNCHANGED a /\ op' = Call("GrowB", <<x>>)
Next == \E x \in Tokens : GrowA(x) \/ GrowB(x)
Spec == Init /\ [][Next]_vars

\* A string that ends where the other goes on is a different string; the functions agree on what is equal
Equal == a = b
Obs == [ eq |-> IF Equal THEN 1 ELSE 0,       \* str_equal(a, b)
         qe |-> IF Equal THEN 1 ELSE 0,       \* str_equal(b, a)
         zero |-> IF Equal THEN 1 ELSE 0,     \* str_compare(a, b) = 0
         anti |-> 1,                          \* str_compare(b, a) has the opposite sign
         self |-> 1,                          \* every string equals itself and a copy of itself
         hash |-> 1,                          \* the hash of a copy, at another address, is the same, now and later
         same |-> IF Equal THEN 1 ELSE 0      \* the tokens are the same and so are the hashes
       ]
TypeOK == Len(a) <= MaxLen /\ Len(b) <= MaxLen
\* strings only grow, so that two different strings of the same length never become equal again
StayDifferent == [][Len(a) = Len(b) /\ a # b => a' # b']_vars
StateRec == [obs |-> Obs, hid |-> [a |-> a, b |-> b]]
View == <<a, b>>
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
