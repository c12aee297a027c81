-------------------------------- MODULE Map --------------------------------
(***************************************************************************)
(* A map with owned keys and values as the users of hashtable.c, rbtree.c  *)
(* and assocarray.c see it.                                                *)
(*                                                                         *)
(* A key is a class k \in Keys (what compare/equal functions look at) and  *)
(* a copy number: the key object 10 * k + c.  Values are 1 .. 9, 0 is NULL.*)
(* FillN further keys ("fillers") can be stored around the keys of         *)
(* interest; they bring the container to a size where it has to grow.      *)
(*                                                                         *)
(* A pair (result of a lookup) is used until the next lookup or            *)
(* modification.  An iterator is used until the next modification; on      *)
(* containers with Reusable iterators it can be reused or freed then.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Copies, Vals,
          FillN,      \* number of fillers (0: none)
          Iters,      \* iterators
          Ordered,    \* iteration in ascending key order
          Reusable,   \* iterators have to be freed and can be reused
          Reports,    \* remove reports whether the key was there
          FreeModes,  \* which free functions: "", "k", "v", "kv"
          OpNames

VARIABLES map,        \* k -> [kl |-> stored key object (0 = absent), v |-> value]
          filled,     \* are the fillers stored?
          pair,       \* key of the current pair, 0 = none
          its,        \* iterators
          fm, alive, op
vars == <<map, filled, pair, its, fm, alive, op>>

Absent == [kl |-> 0, v |-> 0]
Present == {k \in Keys : map[k].kl # 0}
Fill == IF filled THEN FillN ELSE 0
Count == Cardinality(Present) + Fill
FreesKeys == fm \in {"k", "kv"}
FreesVals == fm \in {"v", "kv"}
FK(kl) == IF FreesKeys /\ kl # 0 THEN <<kl>> ELSE <<>>
FV(v) == IF FreesVals /\ v # 0 THEN <<v>> ELSE <<>>
Asc(S) == LET RECURSIVE R(_)
              R(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o R(T \ {m})
          IN R(S)
KeySeq == Asc(Keys)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
\* everything that clearing the container frees; -1000001 / -1000002 stand for the keys / values of all fillers
FFill == IF filled THEN (IF FreesKeys THEN <<-1000001>> ELSE <<>>) \o (IF FreesVals THEN <<-1000002>> ELSE <<>>) ELSE <<>>
FAll == LET P == Asc(Present) IN Concat([i \in 1 .. Len(P) |-> FK(map[P[i]].kl) \o FV(map[P[i]].v)]) \o FFill

NoIter == [st |-> "none", seen |-> {}, cur |-> 0, done |-> FALSE]
Stale == [NoIter EXCEPT !.st = "stale"]
Fresh == [NoIter EXCEPT !.st = "live"]
Invalidated == [i \in Iters |-> IF its[i].st = "none" THEN NoIter ELSE IF Reusable THEN Stale ELSE NoIter]

Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Use(n) == alive /\ n \in OpNames
B(b) == IF b THEN 1 ELSE 0

Init ==
  /\ map = [k \in Keys |-> Absent] /\ filled = FALSE /\ pair = 0
  /\ its = [i \in Iters |-> NoIter]
  /\ fm \in FreeModes /\ alive = TRUE
  /\ op = Call("none", <<>>, 0, <<>>)

Modified == pair' = 0 /\ its' = Invalidated
SameBut == UNCHANGED <<fm, alive>>

Set(k, c, v, ow) ==
  /\ Use("Set")
  /\ IF k \in Present
     THEN /\ map' = [map EXCEPT ![k] = [kl |-> IF ow = 1 THEN 10 * k + c ELSE map[k].kl, v |-> v]]
          /\ op' = Call("Set", <<k, c, v, ow>>, 1, (IF ow = 1 THEN FK(map[k].kl) ELSE <<>>) \o FV(map[k].v))
     ELSE /\ map' = [map EXCEPT ![k] = [kl |-> 10 * k + c, v |-> v]]
          /\ op' = Call("Set", <<k, c, v, ow>>, 0, <<>>)
  /\ Modified /\ UNCHANGED filled /\ SameBut
Remove(k) ==
  /\ Use("Remove")
  /\ map' = [map EXCEPT ![k] = Absent]
  /\ op' = Call("Remove", <<k>>, IF Reports /\ k \in Present THEN 1 ELSE 0, FK(map[k].kl) \o FV(map[k].v))
  /\ Modified /\ UNCHANGED filled /\ SameBut
\* the same two calls with the stored key itself as the argument
SetOwn(k, v) ==
  /\ Use("SetOwn") /\ k \in Present
  /\ map' = [map EXCEPT ![k].v = v]
  /\ op' = Call("SetOwn", <<k, v>>, 1, FV(map[k].v))
  /\ Modified /\ UNCHANGED filled /\ SameBut
RemoveOwn(k) ==
  /\ Use("RemoveOwn") /\ k \in Present
  /\ map' = [map EXCEPT ![k] = Absent]
  /\ op' = Call("RemoveOwn", <<k>>, B(Reports), FK(map[k].kl) \o FV(map[k].v))
  /\ Modified /\ UNCHANGED filled /\ SameBut
Lookup(k) ==
  /\ Use("Lookup")
  /\ pair' = IF k \in Present THEN k ELSE 0
  /\ op' = Call("Lookup", <<k>>, B(k \in Present), <<>>)
  /\ UNCHANGED <<map, filled, its>> /\ SameBut
Exists(k) ==
  /\ Use("Exists")
  /\ op' = Call("Exists", <<k>>, B(k \in Present), <<>>)
  /\ UNCHANGED <<map, filled, pair, its>> /\ SameBut
\* the value of the pair found last is exchanged
PairSet(v) ==
  /\ Use("PairSet") /\ pair # 0
  /\ map' = [map EXCEPT ![pair].v = v]
  /\ op' = Call("PairSet", <<v>>, 0, FV(map[pair].v))
  /\ its' = Invalidated
  /\ UNCHANGED <<filled, pair>> /\ SameBut
\* the user stops using the pair (no call)
Forget ==
  /\ Use("Forget") /\ pair # 0
  /\ pair' = 0
  /\ op' = Call("Forget", <<>>, 0, <<>>)
  /\ UNCHANGED <<map, filled, its>> /\ SameBut
FillUp ==
  /\ Use("Fill") /\ FillN > 0 /\ ~filled
  /\ filled' = TRUE
  /\ op' = Call("Fill", <<>>, FillN, <<>>)
  /\ Modified /\ UNCHANGED map /\ SameBut
Drain ==
  /\ Use("Drain") /\ filled
  /\ filled' = FALSE
  /\ op' = Call("Drain", <<>>, FillN, FFill)
  /\ Modified /\ UNCHANGED map /\ SameBut
Emptied(n) ==
  /\ map' = [k \in Keys |-> Absent] /\ filled' = FALSE /\ pair' = 0
  /\ op' = Call(n, <<>>, 0, FAll)
  /\ UNCHANGED fm
Clear == Use("Clear") /\ Emptied("Clear") /\ its' = Invalidated /\ UNCHANGED alive
\* free + init of the same object; all iterators are given up first
Restart == Use("Restart") /\ Emptied("Restart") /\ its' = [i \in Iters |-> NoIter] /\ UNCHANGED alive
Destroy == Use("Destroy") /\ Emptied("Destroy") /\ its' = [i \in Iters |-> NoIter] /\ alive' = FALSE

IterInit(i) ==
  /\ Use("IterInit") /\ (Reusable => its[i].st = "none")
  /\ its' = [its EXCEPT ![i] = Fresh]
  /\ op' = Call("IterInit", <<i>>, 0, <<>>)
  /\ UNCHANGED <<map, filled, pair>> /\ SameBut
IterReuse(i) ==
  /\ Use("IterReuse") /\ Reusable /\ its[i].st # "none"
  /\ its' = [its EXCEPT ![i] = Fresh]
  /\ op' = Call("IterReuse", <<i>>, 0, <<>>)
  /\ UNCHANGED <<map, filled, pair>> /\ SameBut
IterFree(i) ==
  /\ Use("IterFree") /\ Reusable /\ its[i].st # "none"
  /\ its' = [its EXCEPT ![i] = NoIter]
  /\ op' = Call("IterFree", <<i>>, 0, <<>>)
  /\ UNCHANGED <<map, filled, pair>> /\ SameBut
\* a step of an iterator: to an entry it has not been at, or to the end when there is none
IterNext(i) ==
  /\ Use("IterNext") /\ its[i].st = "live" /\ ~filled
  /\ LET rest == Present \ its[i].seen
         may == IF Ordered THEN {k \in rest : \A j \in rest : k <= j} ELSE rest
     IN IF rest = {}
        THEN /\ its' = [its EXCEPT ![i].cur = 0, ![i].done = TRUE]
             /\ op' = Call("IterNext", <<i>>, 0, <<>>)
        ELSE \E k \in may :
             /\ its' = [its EXCEPT ![i].cur = k, ![i].seen = @ \cup {k}]
             /\ op' = Call("IterNext", <<i>>, map[k].kl, <<>>)
  /\ UNCHANGED <<map, filled, pair>> /\ SameBut
\* a complete iteration with an iterator of its own: number of entries, the entries with the keys of
\* interest (in the order met if Ordered, else sorted), and whether the end is reported over and over
IterAll ==
  /\ Use("IterAll")
  /\ LET P == Asc(Present) IN
     op' = Call("IterAll", <<>>, [n |-> Count, e |-> [j \in 1 .. Len(P) |-> <<map[P[j]].kl, map[P[j]].v>>], end |-> TRUE, asc |-> TRUE], <<>>)
  /\ UNCHANGED <<map, filled, pair, its>> /\ SameBut

Next ==
  \/ \E k \in Keys : Remove(k) \/ RemoveOwn(k) \/ (\E v \in Vals : SetOwn(k, v)) \/ Lookup(k) \/ Exists(k) \/ \E c \in Copies, v \in Vals, ow \in {0, 1} : Set(k, c, v, ow)
  \/ \E v \in Vals : PairSet(v)
  \/ Forget \/ FillUp \/ Drain \/ Clear \/ Restart \/ Destroy \/ IterAll
  \/ \E i \in Iters : IterInit(i) \/ IterReuse(i) \/ IterFree(i) \/ IterNext(i)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What is observed: existence of every key always; all values by lookups  *)
(* when no pair is in use, else the pair; the current entry of iterators.  *)
(***************************************************************************)
Entry(k) == <<map[k].kl, map[k].v>>
Obs == IF ~alive THEN [dead |-> TRUE]
       ELSE [dead |-> FALSE, count |-> Count, fill |-> Fill,
             keys |-> [j \in 1 .. Len(KeySeq) |-> B(KeySeq[j] \in Present)],
             vals |-> IF pair = 0 THEN [j \in 1 .. Len(KeySeq) |-> IF KeySeq[j] \in Present THEN Entry(KeySeq[j]) ELSE <<>>] ELSE <<>>,
             pair |-> IF pair = 0 THEN <<>> ELSE Entry(pair),
             its |-> [i \in Iters |-> IF its[i].cur = 0 THEN <<>> ELSE Entry(its[i].cur)]]

(***************************************************************************)
(* Properties of the specification.                                        *)
(***************************************************************************)
TypeOK ==
  /\ \A k \in Keys : map[k] = Absent \/ (map[k].kl \div 10 = k /\ map[k].v \in Vals)
  /\ pair \in {0} \cup Present
  /\ \A i \in Iters : its[i].seen \subseteq Present /\ its[i].cur \in {0} \cup its[i].seen /\ (its[i].done => its[i].seen = Present)
Occ(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
Stored(m, x) == Cardinality({k \in Keys : m[k].kl = x}) + Cardinality({k \in Keys : m[k].kl # 0 /\ m[k].v = x})
\* Every key and value object is at any time in exactly one place.  A key object handed over to Set
\* without being taken (replacement without overwriting) stays with the caller.
Conservation ==
  [][ LET n == op'.name
          took(x) == IF n = "Set" THEN (IF x >= 10 THEN B(op'.args[1] * 10 + op'.args[2] = x /\ (op'.res = 0 \/ op'.args[4] = 1)) ELSE B(op'.args[3] = x))
                     ELSE IF n = "PairSet" THEN B(op'.args[1] = x) ELSE IF n = "SetOwn" THEN B(op'.args[2] = x) ELSE 0
      IN fm = "kv" => \A x \in (Vals \ {0}) \cup {10 * k + c : k \in Keys, c \in Copies} :
           Stored(map, x) + took(x) = Stored(map', x) + Occ(op'.freed, x) ]_vars
NothingFreed == [][op'.name \in {"Lookup", "Exists", "Forget", "Fill", "IterInit", "IterReuse", "IterFree", "IterNext", "IterAll"} => op'.freed = <<>>]_vars
\* an iterator never yields an entry twice, and ends exactly when it has met them all
IterOnce == [][op'.name = "IterNext" => LET i == op'.args[1] IN
                 IF op'.res = 0 THEN its[i].seen = Present ELSE (op'.res \div 10) \notin its[i].seen]_vars

View == <<map, filled, pair, its, fm, alive>>
StateRec == [obs |-> Obs, hid |-> [f |-> fm, i |-> [i \in Iters |-> [st |-> its[i].st, d |-> its[i].done, seen |-> Asc(its[i].seen)]], m |-> [j \in 1 .. Len(KeySeq) |-> Entry(KeySeq[j])]]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
