------------------------------ MODULE OomTrace ------------------------------
(* Recorded library calls, each run with a chosen request for memory refused, must be behaviours of Oom.   *)
(* A call is a "start" line, one line per event inside it (g grant, r refusal, u a function of the user,   *)
(* a abort(), x return) and an "end" line with the way the process ended ("" = it did not).                *)
EXTENDS Oom, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<phase, exhausted, how, asked, l>>
TInit == phase = "ended" /\ exhausted = FALSE /\ how = "" /\ asked = FALSE /\ l = 1
\* a fresh process makes its first call
TStart(e) == /\ e.k = "start" /\ phase' = "lib" /\ exhausted' = e.all /\ how' = "" /\ asked' = FALSE
TEvent(e) ==
  /\ e.k = "ev"
  /\ CASE e.e = "g" -> Grant
       [] e.e = "r" -> Refuse
       [] e.e = "u" -> Callback
       [] e.e = "a" -> Abort
       [] e.e = "x" -> Return
       [] OTHER -> FALSE
TEnd(e) == /\ e.k = "end"
           /\ IF e.how = "" THEN phase = "user" /\ UNCHANGED vars ELSE Die /\ how' = e.how
TNext == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN TStart(e) \/ TEvent(e) \/ TEnd(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<l, phase>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
