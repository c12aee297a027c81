------------------------------- MODULE Share -------------------------------
(***************************************************************************)
(* Several containers of different types in one process, drawing their     *)
(* nodes from one shared pool.  An operation changes exactly the           *)
(* containers it names; the free function a container was given may itself *)
(* put the released objects into another container.                        *)
(*                                                                         *)
(* Contents: a sequence of tokens (list, slist, stack, queue; the first    *)
(* one is the head), or for maps the values of the keys 1 .. NKeys (0: not *)
(* there).  Iterators of maps stay good until their own map is changed,    *)
(* whatever happens to other containers; a tree iterator may be used again *)
(* for another tree.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Config, NTokens, NKeys, MaxLen, NSlots, OpNames
Kinds == CASE Config = "lists" -> <<"list", "slist", "queue">>
           [] Config = "twice" -> <<"list", "list">>
           [] Config = "singles" -> <<"slist", "slist">>
           [] Config = "lifo" -> <<"stack", "queue", "list">>
           [] Config = "trees" -> <<"rb", "rb">>
           [] Config = "mixed" -> <<"list", "rb", "slist">>
           [] Config = "tables" -> <<"ht", "ht">>
           [] Config = "arrays" -> <<"aa", "aa">>
           [] Config = "maps" -> <<"rb", "ht", "aa">>
           [] Config = "all" -> <<"list", "slist", "stack", "queue", "rb", "rb", "ht", "ht", "aa">>
N == Len(Kinds)
I == 1 .. N
MapKinds == {"rb", "ht", "aa"}
Maps == {i \in I : Kinds[i] \in MapKinds}
Seqs == I \ Maps
Tokens == 1 .. NTokens
Keys == 1 .. NKeys
Slots == 1 .. NSlots

VARIABLES c,      \* contents
          pr,     \* the pair in use: <<map, key>>, or <<0, 0>>
          it,     \* iterators: of (0: never used), on, rest
          alive, op
vars == <<c, it, pr, alive, op>>
NoPair == <<0, 0>>

NoIter == [of |-> 0, on |-> FALSE, rest |-> {}]
Nothing(i) == IF i \in Maps THEN [k \in Keys |-> 0] ELSE <<>>
Call(n, a, r, f) == [name |-> n, args |-> a, res |-> r, freed |-> f]
Use(n) == alive /\ n \in OpNames
Init == /\ c = [i \in I |-> Nothing(i)] /\ it = [s \in Slots |-> NoIter] /\ pr = NoPair /\ alive = TRUE /\ op = Call("none", <<>>, 0, <<>>)

Range(q) == {q[x] : x \in DOMAIN q}
Present(i) == {k \in Keys : c[i][k] # 0}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
KeysOf(i) == LET o == Ordered(Present(i)) IN [x \in 1 .. Len(o) |-> -o[x]]
ValuesOf(i) == LET o == Ordered(Present(i)) IN [x \in 1 .. Len(o) |-> c[i][o[x]]]
\* the objects a container owns
Data(i) == IF i \in Maps THEN ValuesOf(i) ELSE c[i]
Owned(i) == IF i \in Maps THEN KeysOf(i) \o ValuesOf(i) ELSE c[i]
RECURSIVE OwnedBy(_)
OwnedBy(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN Owned(m) \o OwnedBy(S \ {m})
\* iterators of a changed container are of no use any more
Spoil(S) == /\ pr' = IF pr[1] \in S THEN NoPair ELSE pr
            /\ it' = [s \in Slots |-> IF it[s].of \in S THEN [it[s] EXCEPT !.on = FALSE, !.rest = {}] ELSE it[s]]
Put1(i, q, d) == IF Kinds[i] = "stack" THEN <<d>> \o q ELSE Append(q, d)
RECURSIVE PutAll(_, _, _)
PutAll(i, q, ds) == IF ds = <<>> THEN q ELSE PutAll(i, Put1(i, q, Head(ds)), Tail(ds))
Without(q, d) == SelectSeq(q, LAMBDA x : x # d)

Add(i, d) == /\ Use("Add") /\ Len(c[i]) < MaxLen /\ c' = [c EXCEPT ![i] = Put1(i, @, d)]
             /\ op' = Call("Add", <<i, d>>, 0, <<>>) /\ UNCHANGED <<it, pr, alive>>
Pop(i) == /\ Use("Pop") /\ c[i] # <<>> /\ c' = [c EXCEPT ![i] = Tail(@)]
          /\ op' = Call("Pop", <<i>>, Head(c[i]), <<>>) /\ UNCHANGED <<it, pr, alive>>
RemoveAll(i, d) == /\ Use("RemoveAll") /\ Kinds[i] \in {"list", "slist"}
                   /\ c' = [c EXCEPT ![i] = Without(@, d)]
                   /\ op' = Call("RemoveAll", <<i, d>>, 0, SelectSeq(c[i], LAMBDA x : x = d)) /\ UNCHANGED <<it, pr, alive>>
Has(i, d) == /\ Use("Has") /\ Kinds[i] \in {"list", "slist"}
             /\ op' = Call("Has", <<i, d>>, IF d \in Range(c[i]) THEN 1 ELSE 0, <<>>) /\ UNCHANGED <<c, it, pr, alive>>
Put(i, k, d) == /\ Use("Put") /\ c' = [c EXCEPT ![i][k] = d]
                /\ op' = Call("Put", <<i, k, d>>, IF c[i][k] = 0 THEN 0 ELSE 1, IF c[i][k] = 0 THEN <<>> ELSE <<c[i][k]>>)
                /\ Spoil({i}) /\ UNCHANGED alive
Del(i, k) == /\ Use("Del") /\ c' = [c EXCEPT ![i][k] = 0]
             /\ op' = Call("Del", <<i, k>>, 0, IF c[i][k] = 0 THEN <<>> ELSE <<-k, c[i][k]>>)
             /\ Spoil({i}) /\ UNCHANGED alive
\* a later look-up may move the pair of the same map
Look(i, k) == /\ Use("Look") /\ op' = Call("Look", <<i, k>>, c[i][k], <<>>) /\ pr' = (IF pr[1] = i THEN NoPair ELSE pr) /\ UNCHANGED <<c, it, alive>>
\* a look-up whose pair stays in use
Hold(i, k) == /\ Use("Hold") /\ c[i][k] # 0 /\ op' = Call("Hold", <<i, k>>, c[i][k], <<>>) /\ pr' = <<i, k>> /\ UNCHANGED <<c, it, alive>>
\* its value is exchanged
Swap(d) == /\ Use("Swap") /\ pr # NoPair /\ c' = [c EXCEPT ![pr[1]][pr[2]] = d]
           /\ op' = Call("Swap", <<pr[1], pr[2], d>>, 0, <<c[pr[1]][pr[2]]>>)
           /\ it' = [s \in Slots |-> IF it[s].of = pr[1] THEN [it[s] EXCEPT !.on = FALSE, !.rest = {}] ELSE it[s]] /\ UNCHANGED <<pr, alive>>
Emptied(n, i) == /\ c' = [c EXCEPT ![i] = Nothing(i)] /\ op' = Call(n, <<i>>, 0, Owned(i)) /\ Spoil({i}) /\ UNCHANGED alive
Clear(i) == Use("Clear") /\ Emptied("Clear", i)
Renew(i) == Use("Renew") /\ Emptied("Renew", i)       \* destroy it and make a new one
\* clear i; its free function puts the objects into j, in whatever order the container releases them
Orders(q) == {[x \in DOMAIN q |-> q[f[x]]] : f \in {g \in [DOMAIN q -> DOMAIN q] : \A x, y \in DOMAIN q : x # y => g[x] # g[y]}}
ClearInto(i, j, ds) ==
  /\ Use("ClearInto") /\ i # j /\ Len(c[j]) + Len(ds) <= MaxLen
  /\ c' = [c EXCEPT ![i] = Nothing(i), ![j] = PutAll(j, @, ds)]
  /\ op' = Call("ClearInto", <<i, j>>, 0, IF i \in Maps THEN KeysOf(i) ELSE <<>>)
  /\ Spoil({i, j}) /\ UNCHANGED alive
IterInit(s, i) == /\ Use("IterInit") /\ it' = [it EXCEPT ![s] = [of |-> i, on |-> TRUE, rest |-> Present(i)]]
                  /\ op' = Call("IterInit", <<s, i>>, 0, <<>>) /\ UNCHANGED <<c, pr, alive>>
IterReuse(s, i) == /\ Use("IterReuse") /\ Kinds[i] = "rb" /\ it[s].of # 0 /\ Kinds[it[s].of] = "rb"
                   /\ it' = [it EXCEPT ![s] = [of |-> i, on |-> TRUE, rest |-> Present(i)]]
                   /\ op' = Call("IterReuse", <<s, i>>, 0, <<>>) /\ UNCHANGED <<c, pr, alive>>
IterNext(s) ==
  /\ Use("IterNext") /\ it[s].on
  /\ IF it[s].rest = {} THEN /\ op' = Call("IterNext", <<s>>, 0, <<>>)
                             /\ it' = [it EXCEPT ![s].on = FALSE]
     ELSE \E k \in it[s].rest : /\ op' = Call("IterNext", <<s>>, k, <<>>)
                                /\ it' = [it EXCEPT ![s].rest = @ \ {k}]
  /\ UNCHANGED <<c, pr, alive>>
\* everything is destroyed, beginning with container i
End(i) == /\ Use("End") /\ c' = [j \in I |-> Nothing(j)] /\ it' = [s \in Slots |-> NoIter] /\ pr' = NoPair
          /\ op' = Call("End", <<i>>, 0, OwnedBy(I)) /\ alive' = FALSE

SeqNext(i) == Pop(i) \/ \E d \in Tokens : Add(i, d) \/ RemoveAll(i, d) \/ Has(i, d)
MapNext(i) == \E k \in Keys : Del(i, k) \/ Look(i, k) \/ Hold(i, k) \/ \E d \in Tokens : Put(i, k, d)
\* a stack or a queue does not show its inner order: only where there is one order (a driver follows one state)
IntoNext(i) == \E j \in Seqs : \E ds \in Orders(Data(i)) : (Kinds[j] \in {"list", "slist"} \/ Cardinality(Orders(Data(i))) = 1) /\ ClearInto(i, j, ds)
IterOps == \E s \in Slots : IterNext(s) \/ \E i \in Maps : IterInit(s, i) \/ IterReuse(s, i)
Next == \/ \E i \in Seqs : SeqNext(i)
        \/ \E i \in Maps : MapNext(i)
        \/ \E i \in I : Clear(i) \/ Renew(i) \/ End(i) \/ IntoNext(i)
        \/ (\E d \in Tokens : Swap(d))
        \/ IterOps
Spec == Init /\ [][Next]_vars

Shown(i) == IF i \in Maps THEN [x \in 1 .. NKeys |-> c[i][x]]
            ELSE IF Kinds[i] \in {"stack", "queue"} THEN <<Len(c[i]), IF c[i] = <<>> THEN 0 ELSE c[i][1]>>
            ELSE c[i]
Obs == IF ~alive THEN [dead |-> TRUE] ELSE [dead |-> FALSE, c |-> [i \in I |-> Shown(i)], pair |-> IF pr = NoPair THEN <<>> ELSE <<pr[2], c[pr[1]][pr[2]]>>, sound |-> TRUE]

TypeOK == /\ \A i \in Seqs : c[i] \in Seq(Tokens) /\ Len(c[i]) <= MaxLen
          /\ \A i \in Maps : c[i] \in [Keys -> Tokens \cup {0}]
          /\ pr = NoPair \/ (pr[1] \in Maps /\ c[pr[1]][pr[2]] # 0)
          /\ \A s \in Slots : it[s].on => it[s].of # 0 /\ it[s].rest \subseteq Present(it[s].of)
\* nor does it spoil the pair of another one
PairGoesOn == [][ (op'.name \notin {"End", "Hold"} /\ pr # NoPair /\ pr[1] \notin Range(op'.args)) => pr' = pr ]_vars
\* an operation changes no container it does not name
Named == Range(op'.args)
Independent == [][ op'.name # "End" => \A i \in I : (i \notin Named) => c'[i] = c[i] ]_vars
\* iterators of other containers go on unharmed
ItersGoOn == [][ (op'.name \in {"Add", "Pop", "RemoveAll", "Put", "Del", "Clear", "Renew", "ClearInto"}) =>
                 \A s \in Slots : (it[s].of # op'.args[1] /\ (op'.name # "ClearInto" \/ it[s].of # op'.args[2])) => it'[s] = it[s] ]_vars
Count(q, d) == Cardinality({x \in DOMAIN q : q[x] = d})
All(cc, d) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Count(cc[i], d) IN S(N)
\* nothing gets lost between the containers
Conservation == [][ \A d \in Tokens :
    All(c, d) + (IF (op'.name = "Add" /\ op'.args[2] = d) \/ (op'.name \in {"Put", "Swap"} /\ op'.args[3] = d) THEN 1 ELSE 0)
      = All(c', d) + Count(op'.freed, d) + (IF op'.name = "Pop" /\ op'.res = d THEN 1 ELSE 0) ]_vars

View == <<c, it, pr, alive>>
StateRec == [obs |-> Obs, hid |-> [c |-> c, i |-> it, p |-> pr]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
