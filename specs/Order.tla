------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* Tables of what the supplied compare, equal and hash functions answered  *)
(* for all pairs of a set of keys, recorded from the code.  One row per    *)
(* key: its value b (the bytes of a string; for pointers the place of the  *)
(* address among all addresses), the hashes of several copies, and for     *)
(* every other key whether it is equal and the sign of the comparison.     *)
(* TLC walks over the rows and decides whether the comparison is a total   *)
(* order whose equality is the equality of the keys, and whether the hash  *)
(* is a function of the key.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Addresses   \* the keys are pointers: the order is that of the addresses
Rows == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Rows)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* In a total order the sign of a comparison is that of the difference of the numbers of smaller keys, and vice versa.
Rank == [i \in 1 .. N |-> Cardinality({j \in 1 .. N : Rows[j].cmp[i] < 0})]
VARIABLE l
Init == l = 0
Good(i) ==
  LET r == Rows[i] IN
  /\ Len(r.eq) = N /\ Len(r.cmp) = N
  /\ \A j \in 1 .. N :
       LET same == r.b = Rows[j].b IN
       /\ (r.eq[j] = 1) = same
       /\ (r.cmp[j] = 0) = same
       /\ r.cmp[j] = Sign(Rank[i] - Rank[j])
       /\ same => r.h[1] = Rows[j].h[1]
       /\ Addresses => r.cmp[j] = Sign(r.b[1] - Rows[j].b[1])
  /\ \A k \in 1 .. Len(r.h) : r.h[k] = r.h[1]
Next == l < N /\ Good(l + 1) /\ l' = l + 1
TSpec == Init /\ [][Next]_l
TView == l
Accepted == IF TLCGet("stats").diameter - 1 = N THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
