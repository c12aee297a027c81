----------------------------- MODULE ShareTrace -----------------------------
(* A recorded execution must be a behaviour of Share (any number of keys and tokens). *)
EXTENDS Share, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tvars == <<c, it, pr, alive, op, l>>
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
\* the objects ClearInto moved, in the order in which they arrived
Moved(e) == LET q == e.obs.c[e.a[2]] j == e.a[2] n == Len(Data(e.a[1])) IN
            IF Kinds[j] = "stack" THEN [x \in 1 .. n |-> q[n + 1 - x]] ELSE [x \in 1 .. n |-> q[Len(q) - n + x]]
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) \cup Range(q) : Count(p, x) = Count(q, x)
Act(e) ==
  CASE e.n = "Add" -> Add(e.a[1], e.a[2])
    [] e.n = "Pop" -> Pop(e.a[1])
    [] e.n = "RemoveAll" -> RemoveAll(e.a[1], e.a[2])
    [] e.n = "Has" -> Has(e.a[1], e.a[2])
    [] e.n = "Put" -> Put(e.a[1], e.a[2], e.a[3])
    [] e.n = "Del" -> Del(e.a[1], e.a[2])
    [] e.n = "Look" -> Look(e.a[1], e.a[2])
    [] e.n = "Hold" -> Hold(e.a[1], e.a[2])
    [] e.n = "Swap" -> Swap(e.a[3])
    [] e.n = "Clear" -> Clear(e.a[1])
    [] e.n = "Renew" -> Renew(e.a[1])
    [] e.n = "ClearInto" -> Kinds[e.a[2]] \in {"list", "slist"} /\ SameBag(Moved(e), Data(e.a[1])) /\ ClearInto(e.a[1], e.a[2], Moved(e))
    [] e.n = "IterInit" -> IterInit(e.a[1], e.a[2])
    [] e.n = "IterReuse" -> IterReuse(e.a[1], e.a[2])
    [] e.n = "IterNext" -> IterNext(e.a[1])
    [] e.n = "End" -> End(e.a[1])
    [] OTHER -> FALSE
TStart(e) == e.k = "start" /\ c' = [i \in I |-> Nothing(i)] /\ it' = [s \in Slots |-> NoIter] /\ pr' = NoPair /\ alive' = TRUE /\ op' = Call("none", <<>>, 0, <<>>)
TStep(e) == e.k = "step" /\ Act(e) /\ op'.args = e.a /\ op'.res = e.r /\ SameBag(op'.freed, e.f) /\ SameObs(Obs', e.obs)
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN TStart(e) \/ TStep(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<c, it, pr, alive, l>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
