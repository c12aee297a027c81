----------------------------- MODULE BufferImpl -----------------------------
(***************************************************************************)
(* The algorithm of buffer.c: bytes in a block of memory which is doubled  *)
(* until there is room; lines are taken from the front, the rest is moved. *)
(* What lies behind the content is what was left there.  TLC checks that   *)
(* it implements Buffer (Refines) and never reaches outside of the block   *)
(* (Inside).  Every token is one byte here.                                *)
(*                                                                         *)
(* Designs "late" (grows when the block is too short already), "limit"     *)
(* (the limit is compared with the size of the block), "past" (the newline *)
(* is looked for in the whole block), "keep" (the newline stays) and       *)
(* "wrap" (the room is computed as a sum which does not exceed Limit + 1)  *)
(* have to be refuted.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Tokens, Limit, MaxWrite, Modes,
          First,    \* bytes of a new block
          Design
VARIABLES mem,      \* the block; 0: never written
          len, valid, alive, op
vars == <<mem, len, valid, alive, op>>
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
New == [i \in 1 .. First |-> 0]
Init == mem = New /\ len = 0 /\ valid = TRUE /\ alive = TRUE /\ op = Call("none", <<>>, 0)
RECURSIVE Doubled(_, _)
Doubled(from, to) == IF from >= to THEN from ELSE Doubled(2 * from, to)
Grown(n) == IF (IF Design = "late" THEN n > Len(mem) ELSE n > Len(mem) - len)
            THEN mem \o [i \in 1 .. Doubled(Len(mem), Len(mem) + n) - Len(mem) |-> 0] ELSE mem
Writes == UNION {[1 .. n -> Tokens] : n \in 0 .. MaxWrite}
TooMuch(n) == CASE Design = "limit" -> Limit < n
                [] Design = "wrap" -> (len + n) % (Limit + 2) > Limit
                [] OTHER -> Limit - len < n
\* writing s behind the content; what does not fit into the block is written somewhere else
Written(m, s) == [i \in DOMAIN m |-> IF i > len /\ i <= len + Len(s) THEN s[i - len] ELSE m[i]]
Fill(s) ==
  /\ alive /\ valid
  /\ IF TooMuch(Len(s)) THEN valid' = FALSE /\ UNCHANGED <<mem, len>> /\ op' = Call("Fill", <<s>>, 0)
     ELSE /\ mem' = Written(Grown(Len(s)), s) /\ len' = len + Len(s) /\ UNCHANGED valid /\ op' = Call("Fill", <<s>>, 1)
  /\ UNCHANGED alive
Lines == {i \in 1 .. (IF Design = "past" THEN Len(mem) ELSE len) : mem[i] = 1}
ReadLine(m) ==
  /\ alive /\ valid
  /\ IF Lines = {} THEN UNCHANGED <<mem, len>> /\ op' = Call("ReadLine", <<m, 0>>, <<0, <<>>, 1>>)
     ELSE LET p == CHOOSE i \in Lines : \A j \in Lines : i <= j
              q == IF Design = "keep" THEN p ELSE p + 1
              rest == len - q + 1
          IN /\ op' = Call("ReadLine", <<m, p - 1>>, <<1, SubSeq(mem, 1, p - 1), 1>>)
             /\ len' = rest
             /\ mem' = [i \in DOMAIN mem |-> IF i <= rest THEN mem[q + i - 1] ELSE mem[i]]
  /\ UNCHANGED <<valid, alive>>
Text == SubSeq(mem, 1, len)
Flush(m) ==
  /\ alive /\ valid /\ op' = Call("Flush", <<m, len>>, <<IF len = 0 THEN 0 ELSE 1, Text, 1>>)
  /\ UNCHANGED <<mem, len, valid, alive>>
BufToString == alive /\ valid /\ op' = Call("ToString", <<len>>, <<IF len = 0 THEN 0 ELSE 1, Text>>) /\ UNCHANGED <<mem, len, valid, alive>>
Clear == alive /\ len' = 0 /\ valid' = TRUE /\ op' = Call("Clear", <<>>, 0) /\ UNCHANGED <<mem, alive>>
Restart == alive /\ mem' = New /\ len' = 0 /\ valid' = TRUE /\ op' = Call("Restart", <<>>, 0) /\ UNCHANGED alive
Next == (\E s \in Writes : Fill(s)) \/ (\E m \in Modes : ReadLine(m) \/ Flush(m)) \/ BufToString \/ Clear \/ Restart
Spec == Init /\ [][Next]_vars

B == INSTANCE Buffer WITH content <- IF valid THEN Text ELSE <<>>, BlockSize <- 1, MaxLen <- 1000, Sources <- {},
       OpNames <- {"Fill", "ReadLine", "Flush", "ToString", "Clear", "Restart"}
Step == LET a == op'.args IN
  CASE op'.name = "Fill" -> B!Fill(a[1])
    [] op'.name = "ReadLine" -> B!ReadLine(a[1])
    [] op'.name = "Flush" -> B!Flush(a[1])
    [] op'.name = "ToString" -> B!BufToString
    [] op'.name = "Clear" -> B!Clear
    [] op'.name = "Restart" -> B!Restart
Refines == B!Init /\ [][Step]_vars
Inside == len >= 0 /\ len <= Len(mem) /\ \A i \in 1 .. len : mem[i] # 0
View == <<mem, len, valid, alive>>
=============================================================================
