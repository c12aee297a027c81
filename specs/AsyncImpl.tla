----------------------------- MODULE AsyncImpl -----------------------------
(***************************************************************************)
(* The algorithm of asyncqueue.c at the granularity of its mutex and its   *)
(* condition variable, for threads that push and pop for ever: what the    *)
(* bounded programs of AsyncApi cannot settle, i.e. that no consumer       *)
(* sleeps for ever while there is something to take.  Wake-ups may be      *)
(* spurious, signals wake any waiter, and a timed wait may end at any time.*)
(* Design selects the algorithm ("code": the one in asyncqueue.c) or one   *)
(* of several broken variants, on which TLC must find the error; that      *)
(* shows what the properties below are able to see.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Producers, Consumers, Timed, MaxQ, Design
VARIABLES q,        \* number of items (their order is AsyncApi's business)
          owner,    \* of the mutex
          sleepers, \* threads in the condition variable
          waiting,  \* the counter of the queue
          pc,
          out       \* a consumer's last result: "none", "item", "fail"
vars == <<q, owner, sleepers, waiting, pc, out>>
None == 0
Threads == Producers \union Consumers
Init == /\ q = 0 /\ owner = None /\ sleepers = {} /\ waiting = 0
        /\ pc = [t \in Threads |-> "idle"] /\ out = [t \in Threads |-> "none"]

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
\* ---- push
StartPush(p) == pc[p] = "idle" /\ Goto(p, "lock") /\ UNCHANGED <<q, owner, sleepers, waiting, out>>
Lock(t, from, to) == pc[t] = from /\ owner = None /\ owner' = t /\ Goto(t, to)
PushLock(p) == Lock(p, "lock", "add") /\ UNCHANGED <<q, sleepers, waiting, out>>
Add(p) == /\ pc[p] = "add" /\ q < MaxQ
          /\ q' = q + 1
          /\ Goto(p, IF Design = "edge" /\ q > 0 THEN "unlock" ELSE "signal")
          /\ UNCHANGED <<owner, sleepers, waiting, out>>
Signal(p) == /\ pc[p] = "signal"
             /\ IF waiting = 0 \/ sleepers = {} THEN UNCHANGED sleepers
                ELSE \E c \in sleepers : sleepers' = sleepers \ {c}
             /\ waiting' = IF Design = "account" /\ waiting > 0 THEN waiting - 1 ELSE waiting
             /\ Goto(p, "unlock") /\ UNCHANGED <<q, owner, out>>
Unlock(t) == /\ pc[t] = "unlock" /\ owner' = None /\ Goto(t, "idle") /\ UNCHANGED <<q, sleepers, waiting, out>>
\* ---- pop
StartPop(c) == pc[c] = "idle" /\ Goto(c, "lock") /\ out' = [out EXCEPT ![c] = "none"] /\ UNCHANGED <<q, owner, sleepers, waiting>>
PopLock(c) == Lock(c, "lock", "take") /\ UNCHANGED <<q, sleepers, waiting, out>>
Take(c) == /\ pc[c] = "take"
           /\ IF q > 0 THEN q' = q - 1 /\ out' = [out EXCEPT ![c] = "item"] /\ Goto(c, "unlock")
              ELSE UNCHANGED <<q, out>> /\ Goto(c, "wait")
           /\ UNCHANGED <<owner, sleepers, waiting>>
\* the counter goes up and the mutex is released in one step, as far as others can tell
Wait(c) == /\ pc[c] = "wait" /\ waiting' = waiting + 1 /\ sleepers' = sleepers \union {c} /\ owner' = None
           /\ Goto(c, "asleep") /\ UNCHANGED <<q, out>>
Spurious(c) == pc[c] = "asleep" /\ c \in sleepers /\ sleepers' = sleepers \ {c} /\ UNCHANGED <<q, owner, waiting, pc, out>>
Expire(c) == pc[c] = "asleep" /\ c \in Timed /\ c \in sleepers /\ sleepers' = sleepers \ {c} /\ Goto(c, "late") /\ UNCHANGED <<q, owner, waiting, out>>
Awake(c) == /\ \/ pc[c] = "asleep" /\ c \notin sleepers /\ Lock(c, "asleep", IF Design \in {"once"} THEN "last" ELSE "take")
               \/ Lock(c, "late", IF Design = "nolook" THEN "giveup" ELSE "last")
            /\ waiting' = IF waiting > 0 THEN waiting - 1 ELSE 0
            /\ UNCHANGED <<q, sleepers, out>>
\* a last look before the pop gives up
Last(c) == /\ pc[c] = "last" /\ Goto(c, "unlock")
           /\ IF q > 0 THEN q' = q - 1 /\ out' = [out EXCEPT ![c] = "item"] ELSE UNCHANGED q /\ out' = [out EXCEPT ![c] = "fail"]
           /\ UNCHANGED <<owner, sleepers, waiting>>
GiveUp(c) == pc[c] = "giveup" /\ Goto(c, "unlock") /\ out' = [out EXCEPT ![c] = "fail"] /\ UNCHANGED <<q, owner, sleepers, waiting>>
\* ---- clear (by a producer)
StartClear(p) == pc[p] = "idle" /\ Goto(p, "clock") /\ UNCHANGED <<q, owner, sleepers, waiting, out>>
ClearLock(p) == Lock(p, "clock", "clear") /\ UNCHANGED <<q, sleepers, waiting, out>>
Clear(p) == pc[p] = "clear" /\ q' = 0 /\ Goto(p, "unlock") /\ UNCHANGED <<owner, sleepers, waiting, out>>

\* what a thread does by itself once it has started
Go(t) == \/ t \in Producers /\ (Add(t) \/ Signal(t) \/ Unlock(t) \/ Clear(t))
         \/ t \in Consumers /\ (Take(t) \/ Wait(t) \/ Last(t) \/ GiveUp(t) \/ Unlock(t))
Get(t) == \/ t \in Producers /\ (PushLock(t) \/ ClearLock(t))
          \/ t \in Consumers /\ (PopLock(t) \/ Awake(t))
Next == \/ \E t \in Threads : Go(t) \/ Get(t)
        \/ \E p \in Producers : q < MaxQ /\ (\A o \in Producers \ {p} : pc[o] \in {"idle", "clock", "clear", "unlock"}) /\ StartPush(p)
        \/ \E p \in Producers : StartClear(p)
        \/ \E c \in Consumers : StartPop(c) \/ Spurious(c)
        \/ \E c \in Timed : Expire(c)
\* whoever started goes on, and whoever waits for the mutex gets it some day; nobody has to start anything
Fair == \A t \in Threads : WF_vars(Go(t)) /\ SF_vars(Get(t))
Spec == Init /\ [][Next]_vars /\ Fair

TypeOK == /\ q \in 0 .. MaxQ /\ owner \in Threads \union {None} /\ sleepers \subseteq Consumers
          /\ waiting \in 0 .. Cardinality(Consumers)
\* the mutex excludes
Inside == {"add", "signal", "take", "wait", "last", "giveup", "clear", "unlock"}
Mutex == \A t \in Threads : pc[t] \in Inside <=> owner = t
\* the counter is what it says whenever nobody is inside
Counter == owner = None => waiting = Cardinality({c \in Consumers : pc[c] \in {"asleep", "late"}})
\* A02: a pop without a time limit never fails
NoFailure == \A c \in Consumers \ Timed : out[c] # "fail"
\* A03: a timed pop that fails saw an empty queue when it gave up
FailsEmpty == [][\A c \in Timed : out'[c] = "fail" /\ out[c] # "fail" => q = 0]_vars
\* A02: when items stay available, no consumer sleeps for ever
Served == \A c \in Consumers : (pc[c] \in {"lock", "take", "wait", "asleep"} /\ q > 0) ~> (q = 0 \/ pc[c] \notin {"lock", "take", "wait", "asleep"})
\* A04: every push, clear and started timed pop that owns or wants the mutex ends
PushEnds == \A p \in Producers : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
