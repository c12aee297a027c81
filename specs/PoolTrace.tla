----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost
tvars == <<item, alive, peak, op, l, lost>>
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
Act(e) ==
  CASE e.n = "Alloc" -> Alloc(e.a[1]) /\ op'.args = e.a
    [] e.n = "Free" -> GiveBack(e.a[1]) /\ op'.args = e.a
    [] e.n = "Write" -> Write(e.a[1], e.a[2])
    [] e.n = "Destroy" -> Destroy
    [] OTHER -> FALSE
Full(e) == Act(e) /\ op'.res = e.r /\ SameObs(Obs', e.obs)
Judged(e) == Act(e) /\ (e.jr => op'.res = e.r) /\ (e.js => SameObs(Obs', e.obs))
TStart(e) == e.k = "start" /\ item' = <<>> /\ alive' = TRUE /\ peak' = 0 /\ op' = Call("none", <<>>, <<>>) /\ lost' = FALSE
TStep(e) == e.k = "step" /\ ~lost /\ Full(e) /\ lost' = FALSE
TLose(e) == e.k = "step" /\ ~lost /\ ~(e.jr /\ e.js) /\ ~ENABLED Full(e) /\ Judged(e) /\ lost' = TRUE
TSkip(e) == e.k = "step" /\ lost /\ UNCHANGED <<item, alive, peak, op, lost>>
TInit == Init /\ l = 1 /\ lost = TRUE
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN TStart(e) \/ TStep(e) \/ TLose(e) \/ TSkip(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<item, alive, peak, l, lost>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
