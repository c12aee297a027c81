------------------------------- MODULE Apart -------------------------------
(* Threads which use separate objects need not wait for each other. What a call reads and writes is its      *)
(* footprint: locations, and mutexes or atomics it takes and gives (events "acc", "acq", "rel"; "free": the   *)
(* location ceases to exist). The observer keeps for every thread what it knows of the others (vector clocks) *)
(* and is content (ok) as long as no location that one thread has written is read or written by another which  *)
(* cannot know of it, and none that one thread has read is written by another which cannot know of that. Then  *)
(* calls of different threads commute, so each thread sees what it would see if it were alone, whatever the     *)
(* schedule.                                                                                                    *)
(*                                                                                                              *)
(* The second half shows that on designs of a library: "own" (every object has its own memory), "const" (and     *)
(* a common table nobody writes), "locked" (and something common under a mutex) are content and Alone holds;     *)
(* "cache" (the last result is kept in one place for all), "count" (all calls are counted in one place) and       *)
(* "half" (written under the mutex, read without) are not.                                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS T, Design, Calls
VARIABLES st,                          \* the observer
          pc, done, own, common, mutex, res   \* a library of the design, used by T threads
vars == <<st, pc, done, own, common, mutex, res>>
Threads == 1..T
Zero == [u \in Threads |-> 0]
St0 == [ok |-> TRUE, clk |-> [t \in Threads |-> [Zero EXCEPT ![t] = 1]], wr |-> <<>>, rd |-> <<>>, lk |-> <<>>]
Join(a, b) == [u \in Threads |-> IF a[u] > b[u] THEN a[u] ELSE b[u]]
Fine(s, t, r, w) ==
  /\ \A x \in r \cup w : x \in DOMAIN s.wr => s.wr[x][1] = t \/ s.wr[x][2] <= s.clk[t][s.wr[x][1]]
  /\ \A x \in w : x \in DOMAIN s.rd => \A u \in Threads \ {t} : s.rd[x][u] <= s.clk[t][u]
Acc(s, t, r, w) ==
  [s EXCEPT !.ok = @ /\ Fine(s, t, r, w),
            !.wr = [x \in w |-> <<t, s.clk[t][t]>>] @@ @,
            !.rd = [x \in r |-> [(IF x \in DOMAIN s.rd THEN s.rd[x] ELSE Zero) EXCEPT ![t] = s.clk[t][t]]] @@ @]
Acq(s, t, m) == IF m \in DOMAIN s.lk THEN [s EXCEPT !.clk[t] = Join(@, s.lk[m])] ELSE s
Rel(s, t, m) == [s EXCEPT !.lk = (m :> (IF m \in DOMAIN s.lk THEN Join(s.lk[m], s.clk[t]) ELSE s.clk[t])) @@ @, !.clk[t][t] = @ + 1]
Gone(s, xs) == [s EXCEPT !.wr = [x \in DOMAIN @ \ xs |-> @[x]], !.rd = [x \in DOMAIN @ \ xs |-> @[x]]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Event(s, t, e) ==
  CASE e.e = "acc" -> Acc(s, t, SetOf(e.r), SetOf(e.w))
    [] e.e = "acq" -> Acq(s, t, e.m)
    [] e.e = "rel" -> Rel(s, t, e.m)
    [] e.e = "free" -> Gone(s, SetOf(e.x))
    [] OTHER -> [s EXCEPT !.ok = FALSE]
Call(s, t, evs) == FoldLeft(LAMBDA a, e : Event(a, t, e), s, evs)

\* ------------------------------------------------------------------ designs
\* every call adds 1 to the thread's own object and reports its value; location t is the object of thread t, 0 what is common
Init == st = St0 /\ pc = [t \in Threads |-> "idle"] /\ done = Zero /\ own = Zero /\ common = 0 /\ mutex = 0 /\ res = Zero
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Begin(t) == /\ done[t] < Calls /\ Go(t, "idle", IF Design = "own" THEN "tell" ELSE IF Design \in {"locked", "half"} THEN "lock" ELSE "put")
            /\ own' = [own EXCEPT ![t] = @ + 1] /\ st' = Acc(st, t, {t}, {t})
            /\ UNCHANGED <<done, common, mutex, res>>
Lock(t) == Go(t, "lock", "put") /\ mutex = 0 /\ mutex' = t /\ st' = Acq(st, t, "m") /\ UNCHANGED <<done, own, common, res>>
Put(t) == /\ Go(t, "put", IF Design = "half" THEN "early" ELSE "get")
          /\ CASE Design = "const" -> common' = common /\ st' = Acc(st, t, {0}, {})
               [] Design = "count" -> common' = common + 1 /\ st' = Acc(st, t, {0}, {0})
               [] OTHER -> common' = own[t] * 10 + t /\ st' = Acc(st, t, {}, {0})
          /\ UNCHANGED <<done, own, mutex, res>>
Early(t) == Go(t, "early", "get") /\ mutex' = 0 /\ st' = Rel(st, t, "m") /\ UNCHANGED <<done, own, common, res>>
Get(t) == /\ Go(t, "get", IF Design = "locked" THEN "unlock" ELSE "idle")
          /\ st' = Acc(st, t, {0, t}, {})
          /\ res' = [res EXCEPT ![t] = IF Design \in {"const", "count"} THEN own[t] ELSE common \div 10]
          /\ done' = [done EXCEPT ![t] = IF Design = "locked" THEN @ ELSE @ + 1]
          /\ UNCHANGED <<own, common, mutex>>
Unlock(t) == Go(t, "unlock", "idle") /\ mutex' = 0 /\ st' = Rel(st, t, "m") /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<own, common, res>>
Tell(t) == Go(t, "tell", "idle") /\ st' = Acc(st, t, {t}, {}) /\ res' = [res EXCEPT ![t] = own[t]] /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED <<own, common, mutex>>
Next == \E t \in Threads : Begin(t) \/ Lock(t) \/ Put(t) \/ Early(t) \/ Get(t) \/ Unlock(t) \/ Tell(t)
Spec == Init /\ [][Next]_vars
NoRace == st.ok
\* every thread gets what it would get if it were alone
Alone == \A t \in Threads : pc[t] = "idle" => res[t] = done[t]
=============================================================================
