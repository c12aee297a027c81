----------------------------- MODULE ListTrace -----------------------------
(* Is a recorded execution of the real list a behaviour of List?           *)
EXTENDS List, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,     \* next line of the trace
          lost   \* the code did something this property does not speak about: wait for the next fresh list
tvars == <<data, hasFree, alive, op, l, lost>>

Bag(s) == [x \in {s[i] : i \in 1 .. Len(s)} |-> Cardinality({i \in 1 .. Len(s) : s[i] = x})]
SameObs(o, e) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]

Act(e) ==
  CASE e.n = "Append" -> PushBack(e.a[1])
    [] e.n = "Prepend" -> PushFront(e.a[1])
    [] e.n = "InsertSorted" -> InsertSorted(e.a[1])
    [] e.n = "Remove" -> RemoveItem(e.a[1])
    [] e.n = "RemoveByData" -> RemoveByData(e.a[1], e.a[2] = 1)
    [] e.n = "RemoveOwn" -> RemoveOwn(e.a[1], e.a[2] = 1)
    [] e.n = "Pop" -> Pop
    [] e.n = "Clear" -> Clear
    [] e.n = "Find" -> Find(e.a[1], e.a[2])
    [] e.n = "Contains" -> Has(e.a[1])
    [] e.n = "FreeData" -> FreeData(e.a[1])
    [] e.n = "SetData" -> SetData(e.a[1], e.a[2])
    [] e.n = "Restart" -> Restart
    [] e.n = "Destroy" -> Destroy
    [] OTHER -> FALSE

Full(e) == /\ Act(e) /\ op'.res = e.r /\ Bag(op'.freed) = Bag(e.f) /\ SameObs(Obs', e.obs)
Judged(e) == /\ Act(e)
             /\ e.jr => op'.res = e.r
             /\ e.jf => Bag(op'.freed) = Bag(e.f)
             /\ e.js => SameObs(Obs', e.obs)

TStart(e) ==
  /\ e.k = "start"
  /\ data' = <<>> /\ hasFree' = e.p.f /\ alive' = TRUE /\ op' = Call("none", <<>>, 0, <<>>)
  /\ e.js => SameObs(Obs', e.obs)
  /\ lost' = FALSE
TStep(e) == e.k = "step" /\ ~lost /\ Full(e) /\ lost' = FALSE
TLose(e) == e.k = "step" /\ ~lost /\ ~(e.jr /\ e.jf /\ e.js) /\ ~ENABLED Full(e) /\ Judged(e) /\ lost' = TRUE
TSkip(e) == e.k = "step" /\ lost /\ UNCHANGED <<data, hasFree, alive, op, lost>>

TInit == Init /\ hasFree = TRUE /\ l = 1 /\ lost = TRUE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN TStart(e) \/ TStep(e) \/ TLose(e) \/ TSkip(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<data, hasFree, alive, l, lost>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
