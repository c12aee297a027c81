----------------------------- MODULE ApartTrace -----------------------------
(* Recorded footprints of calls which threads made on objects of their own. *)
EXTENDS Apart, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TInit == Init /\ l = 1
TStart(e) == e.k = "start" /\ st' = St0
TCall(e) == e.k = "call" /\ st' = Call(st, e.t, e.ev) /\ st'.ok
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<pc, done, own, common, mutex, res>>
         /\ LET e == Trace[l] IN TStart(e) \/ TCall(e)
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
