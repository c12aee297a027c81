----------------------------- MODULE SteadyTrace -----------------------------
(* Recorded bursts of operations on real containers, judged by the observer of Steady. *)
EXTENDS Steady, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
idle == UNCHANGED <<live, free, lost, turn>>
TStart(e) == e.k = "start" /\ size' = 0 /\ peak' = 0 /\ calm' = 0 /\ base' = 0 /\ mem' = 0 /\ ok' = TRUE
TBurst(e) == e.k = "step" /\ Burst(e.n, e.s, e.m) /\ ok'
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ idle /\ LET e == Trace[l] IN (TStart(e) \/ TBurst(e))
TSpec == TInit /\ [][TNext]_tvars
TView == <<obsv, l>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
