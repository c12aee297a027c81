------------------------------ MODULE AsyncApi ------------------------------
(***************************************************************************)
(* What the users of an AsyncQueue may observe (asyncqueue.h).  Threads    *)
(* run the programs of a workload; every call takes effect at one instant  *)
(* between its call and its return (Lin), and time passes only when nobody *)
(* can go on.  Nothing of the implementation (mutex, condition, counters)  *)
(* is in here.                                                             *)
(*   left[t]: time until the running timed pop gives up or the sleep ends, *)
(*            in units of the workload; -1: not running (any more)         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Threads,     \* 1 .. N
          Strict       \* pops fail only as documented; otherwise a pop that fails on an empty queue is let through
VARIABLES w, pc, st, q, res, left, gone
vars == <<w, pc, st, q, res, left, gone>>

\* sequence of records: p: one program per thread; free: 1 if the queue has a free function
\* (a definition and not a constant replaced in the configuration, because TLC then reads the file once)
Workloads == JsonDeserialize(IOEnv.WORKLOADS)
Prog(t) == Workloads[w].p[t]
Cur(t) == IF pc[t] <= Len(Prog(t)) THEN Prog(t)[pc[t]] ELSE <<"none", 0>>
Kind(t) == Cur(t)[1]
Arg(t) == Cur(t)[2]
\* what is freed when the contents are thrown away
NonNull(s) == IF Workloads[w].free = 1 THEN SelectSeq(s, LAMBDA x : x # 0) ELSE <<>>
Nothing == <<0, 0, <<>>>>           \* a result: success, value, what was freed
Init == /\ w \in 1 .. Len(Workloads)
        /\ pc = [t \in Threads |-> 1] /\ st = [t \in Threads |-> "idle"] /\ q = <<>>
        /\ res = [t \in Threads |-> Nothing] /\ left = [t \in Threads |-> -1] /\ gone = FALSE

Call(t) ==
  /\ ~gone /\ st[t] = "idle" /\ pc[t] <= Len(Prog(t))
  /\ st' = [st EXCEPT ![t] = "run"]
  /\ left' = [left EXCEPT ![t] = IF Kind(t) \in {"sleep", "tpop"} THEN Arg(t) ELSE -1]  \* the time starts to run
  /\ UNCHANGED <<w, pc, q, res, gone>>
Done(t, r) == st' = [st EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = r] /\ left' = [left EXCEPT ![t] = -1] /\ UNCHANGED <<w, pc, gone>>
IsPop(t) == Kind(t) \in {"pop", "tpop"}
Lin(t) ==
  /\ st[t] = "run"
  /\ CASE Kind(t) = "push" -> q' = Append(q, Arg(t)) /\ Done(t, <<1, 0, <<>>>>)
       [] Kind(t) = "count" -> UNCHANGED q /\ Done(t, <<1, Len(q), <<>>>>)
       [] Kind(t) = "clear" -> q' = <<>> /\ Done(t, <<1, 0, NonNull(q)>>)
       [] IsPop(t) /\ q # <<>> -> q' = Tail(q) /\ Done(t, <<1, Head(q), <<>>>>)
       [] IsPop(t) /\ q = <<>> -> /\ (Strict => Kind(t) = "tpop" /\ left[t] = 0)
                                  /\ UNCHANGED q /\ Done(t, <<0, 0, <<>>>>)
       [] OTHER -> FALSE
Ret(t) ==
  /\ \/ st[t] = "done"
     \/ st[t] = "run" /\ Kind(t) = "sleep" /\ left[t] = 0
  /\ st' = [st EXCEPT ![t] = "idle"] /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ res' = [res EXCEPT ![t] = Nothing] /\ left' = [left EXCEPT ![t] = -1]
  /\ UNCHANGED <<w, q, gone>>

Finished(t) == st[t] = "idle" /\ pc[t] > Len(Prog(t))
AllFinished == \A t \in Threads : Finished(t)
Waits(t) == st[t] = "run" /\ IsPop(t)
Sleeps(t) == st[t] = "run" /\ Kind(t) = "sleep"
\* nobody can go on: the only calls in progress are pops on an empty queue (and sleeps)
Rest == \A t \in Threads : Finished(t) \/ (Waits(t) /\ q = <<>>) \/ Sleeps(t)
Timers == {t \in Threads : st[t] = "run" /\ Kind(t) \in {"tpop", "sleep"}}
NextTimer == CHOOSE x \in {left[t] : t \in Timers} : \A t \in Timers : x <= left[t]
\* ... and nobody waits for the clock
End == Rest /\ Timers = {}
Advance ==
  /\ Rest /\ Timers # {} /\ \A t \in Timers : left[t] > 0
  /\ left' = [t \in Threads |-> IF t \in Timers THEN left[t] - NextTimer ELSE left[t]]
  /\ UNCHANGED <<w, pc, st, q, res, gone>>
Destroy ==
  /\ ~gone /\ AllFinished
  /\ gone' = TRUE /\ q' = <<>>
  /\ UNCHANGED <<w, pc, st, res, left>>

Next == (\E t \in Threads : Call(t) \/ Lin(t) \/ Ret(t)) \/ Advance \/ Destroy
Spec == Init /\ [][Next]_vars

(* Properties of the specification *)
Pushed == UNION {{Prog(t)[i][2] : i \in {j \in 1 .. Len(Prog(t)) : Prog(t)[j][1] = "push"}} : t \in Threads}
TypeOK == /\ \A i \in 1 .. Len(q) : q[i] \in Pushed
          /\ \A t \in Threads : left[t] >= -1 /\ (st[t] = "idle" => res[t] = Nothing)
\* an item is in one place only (every workload pushes every non-NULL item once)
OnePlace == \A v \in Pushed \ {0} :
  Cardinality({i \in 1 .. Len(q) : q[i] = v}) + Cardinality({t \in Threads : st[t] = "done" /\ Kind(t) # "count" /\ res[t][2] = v})
    + Cardinality({t \in Threads : \E i \in 1 .. Len(res[t][3]) : res[t][3][i] = v}) <= 1
\* first in, first out: the queue changes at its end by a push, at its front by a pop, or is emptied
\* (IF: TLC evaluates all branches of a disjunction)
Fifo == [][ q' # q => (IF q = <<>> THEN FALSE ELSE q' = Tail(q)) \/ (\E v \in Pushed : q' = Append(q, v)) \/ q' = <<>> ]_vars
\* whoever is at rest with an item in the queue is no pop
NeverAsleep == Rest /\ q # <<>> => \A t \in Threads : ~Waits(t)

(* The transitions, printed for the conformance check *)
EventOf ==
  IF gone' # gone THEN <<"destroy", 0, <<1, 0, NonNull(q)>>>>
  ELSE IF \E t \in Threads : st[t] = "idle" /\ st'[t] = "run" THEN <<"call", CHOOSE t \in Threads : st[t] = "idle" /\ st'[t] = "run", Nothing>>
  ELSE IF \E t \in Threads : pc'[t] # pc[t] THEN LET t == CHOOSE x \in Threads : pc'[x] # pc[x] IN <<"ret", t, res[t]>>
  ELSE IF st' = st /\ \E t \in Threads : left[t] > 0 /\ left'[t] < left[t] THEN <<"advance", NextTimer, Nothing>>
  ELSE <<"in", 0, Nothing>>
StateRec == <<w, pc, [t \in Threads |-> IF st[t] = "idle" THEN 0 ELSE IF st[t] = "run" THEN 1 ELSE 2], q, res, left, IF gone THEN 1 ELSE 0>>
Flags == (IF Rest THEN 1 ELSE 0) + (IF Rest /\ End THEN 2 ELSE 0)
EmitInit == (TLCGet("level") = 1) => PrintT(ToJson([init |-> ToString(StateRec), w |-> w, f |-> Flags]))
Emit == PrintT(ToJson([s |-> ToString(StateRec), e |-> EventOf, t |-> ToString(StateRec'), f |-> Flags']))
=============================================================================
