----------------------------- MODULE BufferBig -----------------------------
(***************************************************************************)
(* A Buffer holding gigabytes.  All sizes are counted in units (mebibytes); *)
(* the content is a sequence of blocks [n |-> units, l |-> "ends with the  *)
(* only newline it has"].  Lengths beyond 2^31 and 2^32 bytes are ordinary. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, LineSizes, \* units of the blocks written without and with a newline
          Limit,            \* maximum size of the buffer
          MaxLen            \* most blocks
VARIABLES content, valid, alive, op
vars == <<content, valid, alive, op>>
Blocks == [n : Sizes, l : {0}] \cup [n : LineSizes, l : {1}]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Size(Tail(s))
Flat(s) == [i \in 1 .. Len(s) |-> <<s[i].n, s[i].l>>]
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]

Init == content = <<>> /\ valid = TRUE /\ alive = TRUE /\ op = Call("none", <<>>, 0)
Write(b) ==
  /\ alive /\ valid
  /\ IF Size(content) + b.n <= Limit
     THEN /\ Len(content) < MaxLen
          /\ content' = Append(content, b) /\ valid' = TRUE /\ op' = Call("Write", <<b.n, b.l>>, 1)
     ELSE content' = <<>> /\ valid' = FALSE /\ op' = Call("Write", <<b.n, b.l>>, 0)
  /\ UNCHANGED alive
\* the rest of the room and one byte more: the write that is too long by as little as possible
Over == /\ alive /\ valid /\ content' = <<>> /\ valid' = FALSE /\ op' = Call("Over", <<Limit - Size(content)>>, 0) /\ UNCHANGED alive
Lines == {i \in 1 .. Len(content) : content[i].l = 1}
ReadLine ==
  /\ alive /\ valid
  /\ IF Lines = {} THEN UNCHANGED content /\ op' = Call("ReadLine", <<>>, <<0, <<>>>>)
     ELSE LET i == CHOOSE i \in Lines : \A j \in Lines : i <= j
          IN content' = SubSeq(content, i + 1, Len(content)) /\ op' = Call("ReadLine", <<>>, <<1, Flat(SubSeq(content, 1, i))>>)
  /\ UNCHANGED <<valid, alive>>
Copy(n) == alive /\ valid /\ op' = Call(n, <<>>, <<IF content = <<>> THEN 0 ELSE 1, Flat(content)>>) /\ UNCHANGED <<content, valid, alive>>
Clear == alive /\ content' = <<>> /\ valid' = TRUE /\ op' = Call("Clear", <<>>, 0) /\ UNCHANGED alive
Next == \/ \E b \in Blocks : Write(b)
        \/ Over \/ ReadLine \/ Copy("Flush") \/ Copy("ToString") \/ Clear
Spec == Init /\ [][Next]_vars

Obs == [dead |-> FALSE, valid |-> valid, units |-> IF valid THEN Size(content) ELSE 0]
TypeOK == Size(content) <= Limit /\ (~valid => content = <<>>)
\* lines come out in the order in which they went in, whole
InOrder == [][op'.name = "ReadLine" /\ op'.res[1] = 1 => Flat(content) = op'.res[2] \o Flat(content')]_vars
View == <<content, valid, alive>>
StateRec == [obs |-> Obs, hid |-> [c |-> content]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
