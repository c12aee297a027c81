------------------------------- MODULE Crowd -------------------------------
(***************************************************************************)
(* An asynchronous queue with a crowd of waiting consumers, seen only when *)
(* nobody can go on any more: u consumers wait without, t with a time      *)
(* limit, n items are stored.  Consumers and items come one by one or many *)
(* at once.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxWait, MaxItems, OpNames
VARIABLES u, t, n, op
vars == <<u, t, n, op>>
Min(a, b) == IF a < b THEN a ELSE b
\* result: consumers that got an item, consumers that gave up
Call(nm, a, r) == [name |-> nm, args |-> a, res |-> r, freed |-> <<>>]
Init == u = 0 /\ t = 0 /\ n = 0 /\ op = Call("none", <<>>, <<0, 0>>)
\* (the two kinds are not both many, which keeps the model small)
Few(x) == x <= 1
Arrive(k) ==
  /\ "Arrive" \in OpNames /\ u + k - Min(n, k) <= MaxWait /\ (Few(t) \/ Few(u + k))
  /\ u' = u + k - Min(n, k) /\ n' = n - Min(n, k) /\ UNCHANGED t
  /\ op' = Call("Arrive", <<k>>, <<Min(n, k), 0>>)
ArriveTimed(k) ==
  /\ "ArriveTimed" \in OpNames /\ t + k - Min(n, k) <= MaxWait /\ (Few(u) \/ Few(t + k))
  /\ t' = t + k - Min(n, k) /\ n' = n - Min(n, k) /\ UNCHANGED u
  /\ op' = Call("ArriveTimed", <<k>>, <<Min(n, k), 0>>)
\* how = 0: all items are pushed before a consumer runs, 1: the consumers run after each item
Push(k, how) ==
  /\ "Push" \in OpNames
  /\ LET d == Min(k, u + t)
     IN /\ n + k - d <= MaxItems
        /\ \E du \in 0 .. d : du <= u /\ d - du <= t /\ u' = u - du /\ t' = t - (d - du)
        /\ n' = n + k - d
        /\ op' = Call("Push", <<k, how>>, <<d, 0>>)
\* items and consumers at the same time: the consumers arrive after the items, before anybody who waits has run
Rush(k, c) ==
  /\ "Rush" \in OpNames /\ Few(t) /\ u + c <= MaxWait
  /\ LET d == Min(n + k, u + t + c)
     IN /\ n + k - d <= MaxItems
        /\ \E du \in 0 .. d : du <= u + c /\ d - du <= t /\ u' = u + c - du /\ t' = t - (d - du)
        /\ n' = n + k - d
        /\ op' = Call("Rush", <<k, c>>, <<d, 0>>)
Clear == "Clear" \in OpNames /\ n' = 0 /\ op' = Call("Clear", <<>>, <<0, 0>>) /\ UNCHANGED <<u, t>>
\* the time limit of all passes
Elapse == "Elapse" \in OpNames /\ t' = 0 /\ op' = Call("Elapse", <<>>, <<0, t>>) /\ UNCHANGED <<u, n>>
Next == Clear \/ Elapse \/ \E k \in Sizes : Arrive(k) \/ ArriveTimed(k) \/ (\E h \in {0, 1} : Push(k, h)) \/ \E c \in Sizes : Rush(k, c)
Spec == Init /\ [][Next]_vars
Obs == [count |-> n, dead |-> FALSE, timed |-> t, waiting |-> u]
TypeOK == u \in 0 .. MaxWait /\ t \in 0 .. MaxWait /\ n \in 0 .. MaxItems
\* nobody sleeps while items wait
NeverAsleep == ~(u + t > 0 /\ n > 0)
View == <<u, t, n>>
StateRec == [obs |-> Obs, hid |-> [x |-> 0]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
