------------------------------ MODULE MapTrace ------------------------------
(* Is a recorded execution of a real map a behaviour of Map?               *)
EXTENDS Map, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lost
tvars == <<map, filled, pair, its, fm, alive, op, l, lost>>

Bag(s) == [x \in {s[i] : i \in 1 .. Len(s)} |-> Cardinality({i \in 1 .. Len(s) : s[i] = x})]
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]

Act(e) ==
  CASE e.n = "Set" -> Set(e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.n = "Remove" -> Remove(e.a[1])
    [] e.n = "RemoveOwn" -> RemoveOwn(e.a[1])
    [] e.n = "SetOwn" -> SetOwn(e.a[1], e.a[2])
    [] e.n = "Lookup" -> Lookup(e.a[1])
    [] e.n = "Exists" -> Exists(e.a[1])
    [] e.n = "PairSet" -> PairSet(e.a[1])
    [] e.n = "Forget" -> Forget
    [] e.n = "Fill" -> FillUp
    [] e.n = "Drain" -> Drain
    [] e.n = "Clear" -> Clear
    [] e.n = "Restart" -> Restart
    [] e.n = "Destroy" -> Destroy
    [] e.n = "IterInit" -> IterInit(e.a[1])
    [] e.n = "IterReuse" -> IterReuse(e.a[1])
    [] e.n = "IterFree" -> IterFree(e.a[1])
    [] e.n = "IterNext" -> IterNext(e.a[1])
    [] e.n = "IterAll" -> IterAll
    [] OTHER -> FALSE

Full(e) == Act(e) /\ op'.res = e.r /\ Bag(op'.freed) = Bag(e.f) /\ SameObs(Obs', e.obs)
Judged(e) == /\ Act(e)
             /\ e.jr => op'.res = e.r
             /\ e.jf => Bag(op'.freed) = Bag(e.f)
             /\ e.js => SameObs(Obs', e.obs)
TStart(e) ==
  /\ e.k = "start"
  /\ map' = [k \in Keys |-> Absent] /\ filled' = FALSE /\ pair' = 0 /\ its' = [i \in Iters |-> NoIter]
  /\ fm' = e.p.f /\ alive' = TRUE /\ op' = Call("none", <<>>, 0, <<>>)
  /\ e.js => SameObs(Obs', e.obs)
  /\ lost' = FALSE
TStep(e) == e.k = "step" /\ ~lost /\ Full(e) /\ lost' = FALSE
TLose(e) == e.k = "step" /\ ~lost /\ ~(e.jr /\ e.jf /\ e.js) /\ ~ENABLED Full(e) /\ Judged(e) /\ lost' = TRUE
TSkip(e) == e.k = "step" /\ lost /\ UNCHANGED <<map, filled, pair, its, fm, alive, op, lost>>
TInit == Init /\ fm = "kv" /\ l = 1 /\ lost = TRUE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN TStart(e) \/ TStep(e) \/ TLose(e) \/ TSkip(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<map, filled, pair, its, fm, alive, l, lost>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
