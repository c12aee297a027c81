------------------------------- MODULE Steady -------------------------------
(* What a container may cost in memory: as much as its largest content so far has cost, no matter how long *)
(* it has been in use. An observer sees bursts of operations - how many, the largest size the container    *)
(* had, the most memory it had taken - and judges them: while the container grows beyond what it has been, *)
(* and for Warm operations afterwards, what it costs is its base; from then on it has to stay within twice  *)
(* the base (room for any policy that keeps spare room) and Slack.                                          *)
(*                                                                                                           *)
(* The second half checks the observer on designs of a container of nodes: "reuse" (a node removed is used   *)
(* again), "return" (its memory is given back at once), "chunks" (nodes come in blocks, which are given back  *)
(* only when all of a block is free), "double" (an array which grows by doubling and never shrinks), and two *)
(* which do not live up to the property: "leak" (a node removed is lost) and "stash" (every second one is).   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Warm, Slack, Design, MaxLive, MaxMem
VARIABLES size, peak, calm, base, mem, ok,   \* the observer
          live, free, lost, turn             \* a design
obsv == <<size, peak, calm, base, mem, ok>>
vars == <<size, peak, calm, base, mem, ok, live, free, lost, turn>>
Max(a, b) == IF a > b THEN a ELSE b
Judge(b, m) == m <= 2 * b + Slack
\* n operations during which the largest size was s and the most memory m
Burst(n, s, m) ==
  /\ size' = s /\ mem' = m
  /\ IF s > peak THEN peak' = s /\ calm' = 0 /\ base' = Max(base, m) /\ ok' = ok
     ELSE IF calm < Warm THEN peak' = peak /\ calm' = calm + n /\ base' = Max(base, m) /\ ok' = ok
     ELSE peak' = peak /\ calm' = calm /\ base' = base /\ ok' = (ok /\ Judge(base, m))
ObsInit == size = 0 /\ peak = 0 /\ calm = 0 /\ base = 0 /\ mem = 0 /\ ok = TRUE

\* ------------------------------------------------------------------ designs
Pow2(n) == IF n = 0 THEN 0 ELSE IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n <= 4 THEN 4 ELSE IF n <= 8 THEN 8 ELSE 16
Cost(lv, fr, ls) == lv + fr + ls
Init == ObsInit /\ live = 0 /\ free = 0 /\ lost = 0 /\ turn = 0
Add == /\ live < MaxLive /\ live' = live + 1 /\ lost' = lost /\ turn' = turn
       /\ free' = CASE Design = "double" -> Pow2(Max(live + 1, live + free)) - (live + 1)
                    [] Design = "chunks" -> IF free > 0 THEN free - 1 ELSE 2
                    [] Design = "return" -> 0
                    [] OTHER -> IF free > 0 THEN free - 1 ELSE 0
Remove == /\ live > 0 /\ live' = live - 1 /\ turn' = 1 - turn
          /\ CASE Design = "leak" -> free' = free /\ lost' = lost + 1
               [] Design = "stash" -> IF turn = 0 THEN free' = free + 1 /\ lost' = lost ELSE free' = free /\ lost' = lost + 1
               [] Design = "return" -> free' = 0 /\ lost' = lost
               [] Design = "chunks" -> lost' = lost /\ free' = IF free + 1 >= 6 THEN free - 2 ELSE free + 1
               [] OTHER -> free' = free + 1 /\ lost' = lost
Step == /\ (Add \/ Remove)
        /\ Burst(1, live', Cost(live', free', lost'))
Next == Step
Spec == Init /\ [][Next]_vars
Small == mem <= MaxMem
View == <<size, peak, IF calm > Warm THEN Warm ELSE calm, base, mem, ok, live, free, lost, turn>>
TypeOK == live \in 0..MaxLive /\ free \in Nat /\ lost \in Nat /\ peak \in 0..MaxLive
\* the observer never complains
Quiet == ok
\* and that is so because the memory is bounded by the largest content
Bounded == lost = 0 => Cost(live, free, lost) <= 2 * peak + 3
=============================================================================
