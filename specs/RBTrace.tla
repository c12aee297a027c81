------------------------------ MODULE RBTrace ------------------------------
(***************************************************************************)
(* Every line of the trace is a step of the real tree: the tree before, the *)
(* call, the tree after, the keys compared by the call and by the most     *)
(* expensive lookup afterwards, and the count reported.                    *)
(***************************************************************************)
EXTENDS RBTree, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tree, l
Init == tree = Nil /\ l = 1
Good(e) == /\ Step(e.t, e.n, e.x, e.u)
           /\ e.cost <= Bound(Size(e.t))
           /\ e.look <= Bound(Size(e.u))
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN Valid(e.t, Size(e.t)) /\ Good(e) /\ tree' = e.u
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<tree, l>>
TView == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED at line", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
