--------------------------- MODULE LifoFifoTrace ---------------------------
(* Is a recorded execution of the real stack / queue a behaviour of LifoFifo? *)
EXTENDS LifoFifo, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost
tvars == <<data, hasFree, alive, op, pushed, popped, l, lost>>
Bag(s) == [x \in {s[i] : i \in 1 .. Len(s)} |-> Cardinality({i \in 1 .. Len(s) : s[i] = x})]
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
Act(e) ==
  CASE e.n = "Push" -> Push(e.a[1])
    [] e.n = "Pop" -> Pop
    [] e.n = "Head" -> Peek
    [] e.n = "Clear" -> Clear
    [] e.n = "Restart" -> Restart
    [] e.n = "Destroy" -> Destroy
    [] OTHER -> FALSE
TStart(e) ==
  /\ e.k = "start" /\ data' = <<>> /\ hasFree' = e.p.f /\ alive' = TRUE /\ op' = Call("none", <<>>, <<>>, <<>>)
  /\ pushed' = <<>> /\ popped' = <<>> /\ (e.js => SameObs(Obs', e.obs))
TStep(e) == e.k = "step" /\ Act(e) /\ op'.res = e.r /\ Bag(op'.freed) = Bag(e.f) /\ SameObs(Obs', e.obs)
TInit == Init /\ hasFree = TRUE /\ l = 1 /\ lost = FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED lost /\ LET e == Trace[l] IN TStart(e) \/ TStep(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<data, hasFree, alive, l>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
