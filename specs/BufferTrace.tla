---------------------------- MODULE BufferTrace ----------------------------
(* Is a recorded execution of the real buffer a behaviour of Buffer?        *)
EXTENDS Buffer, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost
tvars == <<content, valid, alive, op, l, lost>>
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
\* a request ends within or behind the tokens that are there
Requests(s) == 0 .. Len(s) + 1
Act(e) ==
  CASE e.n = "Fill" -> Fill(e.a[1])
    [] e.n = "FillTooMuch" -> FillTooMuch(e.a[1])
    [] e.n \in {"FillFd", "InvFillFd"} -> \E k \in Requests(e.a[1]) : FillFd(e.a[1], k, e.a[3])
    [] e.n = "FillFdMax" -> FillFdMax(e.a[1])
    [] e.n = "ReadLine" -> ReadLine(e.a[1])
    [] e.n = "Flush" -> Flush(e.a[1])
    [] e.n = "ToString" -> BufToString
    [] e.n \in {"InvFill", "InvFillTooMuch", "InvReadLine", "InvFlush", "InvToString"} -> OnInvalid
    [] e.n = "Clear" -> Clear
    [] e.n = "Restart" -> Restart
    [] e.n = "Destroy" -> Destroy
    [] OTHER -> FALSE
Called(e) == Act(e) /\ op'.name = e.n /\ op'.args = e.a
Full(e) == Called(e) /\ op'.res = e.r /\ SameObs(Obs', e.obs)
Judged(e) == Called(e) /\ (e.jr => op'.res = e.r) /\ (e.js => SameObs(Obs', e.obs))
TStart(e) == /\ e.k = "start" /\ content' = <<>> /\ valid' = TRUE /\ alive' = TRUE /\ op' = Call("none", <<>>, 0)
             /\ (e.js => SameObs(Obs', e.obs)) /\ lost' = FALSE
TStep(e) == e.k = "step" /\ ~lost /\ Full(e) /\ lost' = FALSE
TLose(e) == e.k = "step" /\ ~lost /\ ~(e.jr /\ e.js) /\ ~ENABLED Full(e) /\ Judged(e) /\ lost' = TRUE
TSkip(e) == e.k = "step" /\ lost /\ UNCHANGED <<content, valid, alive, op, lost>>
TInit == Init /\ l = 1 /\ lost = TRUE
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN TStart(e) \/ TStep(e) \/ TLose(e) \/ TSkip(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<content, valid, alive, l, lost>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
