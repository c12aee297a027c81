------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* A Buffer (buffer.c).  Its content is a sequence of tokens: 1 a newline, *)
(* 2 a NUL byte, 3 and 4 two different blocks of BlockSize bytes without   *)
(* newlines.  Limit is the maximum size in bytes.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Tokens,     \* tokens in use
          BlockSize, Limit,
          MaxLen,     \* longest content explored, in tokens
          MaxWrite,   \* longest write, in tokens
          Modes,      \* destinations handed to read_line and flush
          Sources,    \* kinds of descriptors
          OpNames
VARIABLES content, valid, alive, op
vars == <<content, valid, alive, op>>

NL == 1
Bytes(t) == IF t <= 2 THEN 1 ELSE BlockSize
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Bytes(Head(s)) + Size(Tail(s))
Take(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Call(n, a, r) == [name |-> n, args |-> a, res |-> r, freed |-> <<>>]
Use(n) == alive /\ n \in OpNames
Fits(s) == Size(content) + Size(s) <= Limit
Writes == UNION {[1 .. n -> Tokens] : n \in 0 .. MaxWrite}
\* bound of the model only: a write the buffer would accept but which makes the content too long to explore is left out
Explored(s) == ~Fits(s) \/ Len(content) + Len(s) <= MaxLen

Init == content = <<>> /\ valid = TRUE /\ alive = TRUE /\ op = Call("none", <<>>, 0)
Append_(s) == content' = content \o s /\ valid' = TRUE
Spoil == content' = <<>> /\ valid' = FALSE

Fill(s) ==
  /\ Use("Fill") /\ valid /\ Explored(s)
  /\ IF Fits(s) THEN Append_(s) /\ op' = Call("Fill", <<s>>, 1)
                ELSE Spoil /\ op' = Call("Fill", <<s>>, 0)
  /\ UNCHANGED alive
\* a length that can never fit: 0: one byte more than there is room for, 1: SSIZE_MAX, 2: SIZE_MAX, 3: so long that length + content wraps to 0
FillTooMuch(k) ==
  /\ Use("FillTooMuch") /\ valid
  /\ Spoil
  /\ op' = Call("FillTooMuch", <<k, Limit - Size(content)>>, 0)
  /\ UNCHANGED alive
\* a descriptor of which s can be read; k tokens are requested (k > Len(s): more than there is).
\* sources: 0 pipe, then end of file; 1 pipe which would block when it is empty; 2 file; 3 not readable;
\* 4 pipe, a signal interrupts the read (which may be tried again: then the end of file comes); 5 directory
\* args: what there is, bytes requested, source, most bytes that may be consumed; result: returned value, consumption as it should be
FillFd(s, k, src) ==
  /\ Use("FillFd") /\ src \in Sources
  /\ LET want == IF k <= Len(s) THEN Size(SubSeq(s, 1, k)) ELSE Size(s) + k - Len(s)
         got == Take(s, k)
         fails == src \in {3, 5} \/ (src = 1 /\ s = <<>> /\ want > 0)
     IN /\ want <= Limit
        /\ (src \in {3, 4, 5} => want > 0)
        /\ (src \in {4, 5} => s = <<>>)
        /\ IF ~valid
           THEN /\ UNCHANGED <<content, valid>>
                /\ \E r \in {0, -1} : op' = Call("InvFillFd", <<s, want, src, 0>>, <<r, 1>>)
           ELSE IF src = 4 THEN /\ UNCHANGED <<content, valid>>
                                /\ \E r \in {0, -1} : op' = Call("FillFd", <<s, want, src, 0>>, <<r, 1>>)
           ELSE IF fails THEN UNCHANGED <<content, valid>> /\ op' = Call("FillFd", <<s, want, src, 0>>, <<-1, 1>>)
           ELSE IF got = <<>> THEN UNCHANGED <<content, valid>> /\ op' = Call("FillFd", <<s, want, src, 0>>, <<0, 1>>)
           ELSE /\ Explored(got)
                /\ IF Fits(got) THEN Append_(got) /\ op' = Call("FillFd", <<s, want, src, want>>, <<Size(got), 1>>)
                   ELSE Spoil /\ op' = Call("FillFd", <<s, want, src, want>>, <<-1, 1>>)
  /\ UNCHANGED alive
\* the largest count that may be requested
FillFdMax(s) ==
  /\ Use("FillFdMax") /\ valid /\ Size(s) <= Limit
  /\ IF s = <<>> THEN UNCHANGED <<content, valid>> /\ op' = Call("FillFdMax", <<s, Limit>>, <<0, 1>>)
     ELSE /\ Explored(s)
          /\ IF Fits(s) THEN Append_(s) /\ op' = Call("FillFdMax", <<s, Limit>>, <<Size(s), 1>>)
             ELSE Spoil /\ op' = Call("FillFdMax", <<s, Limit>>, <<-1, 1>>)
  /\ UNCHANGED alive
HasLine == \E i \in 1 .. Len(content) : content[i] = NL
FirstNL == CHOOSE i \in 1 .. Len(content) : content[i] = NL /\ \A j \in 1 .. i - 1 : content[j] # NL
\* args: destination, bytes of the text (0 if there is none); result: success, text, "the destination is as it should be"
ReadLine(m) ==
  /\ Use("ReadLine") /\ valid
  /\ IF HasLine
     THEN LET t == SubSeq(content, 1, FirstNL - 1) IN
          /\ op' = Call("ReadLine", <<m, Size(t)>>, <<1, t, 1>>)
          /\ content' = SubSeq(content, FirstNL + 1, Len(content))
     ELSE /\ op' = Call("ReadLine", <<m, 0>>, <<0, <<>>, 1>>)
          /\ UNCHANGED content
  /\ UNCHANGED <<valid, alive>>
Flush(m) ==
  /\ Use("Flush") /\ valid
  /\ op' = Call("Flush", <<m, Size(content)>>, <<IF content = <<>> THEN 0 ELSE 1, content, 1>>)
  /\ UNCHANGED <<content, valid, alive>>
BufToString ==
  /\ Use("ToString") /\ valid
  /\ op' = Call("ToString", <<Size(content)>>, <<IF content = <<>> THEN 0 ELSE 1, content>>)
  /\ UNCHANGED <<content, valid, alive>>
\* an invalid buffer ignores and yields nothing
OnInvalid ==
  /\ alive /\ ~valid
  /\ \/ Use("Fill") /\ \E s \in {<<>>, <<CHOOSE t \in Tokens : TRUE>>} : op' = Call("InvFill", <<s>>, 0)
     \/ Use("FillTooMuch") /\ \E k \in 0 .. 3 : op' = Call("InvFillTooMuch", <<k, Limit>>, 0)
     \/ Use("ReadLine") /\ \E m \in Modes : op' = Call("InvReadLine", <<m, 0>>, <<0, <<>>, 1>>)
     \/ Use("Flush") /\ \E m \in Modes : op' = Call("InvFlush", <<m, 0>>, <<0, <<>>, 1>>)
     \/ Use("ToString") /\ op' = Call("InvToString", <<0>>, <<0, <<>>>>)
  /\ UNCHANGED <<content, valid, alive>>
Clear == Use("Clear") /\ content' = <<>> /\ valid' = TRUE /\ op' = Call("Clear", <<>>, 0) /\ UNCHANGED alive
Restart == Use("Restart") /\ content' = <<>> /\ valid' = TRUE /\ op' = Call("Restart", <<>>, 0) /\ UNCHANGED alive
Destroy == Use("Destroy") /\ content' = <<>> /\ valid' = TRUE /\ alive' = FALSE /\ op' = Call("Destroy", <<>>, 0)

Next ==
  \/ \E s \in Writes : Fill(s) \/ FillFdMax(s) \/ \E k \in 0 .. MaxWrite + 1, src \in Sources : (k <= Len(s) + 1 /\ FillFd(s, k, src))
  \/ \E k \in 0 .. 3 : FillTooMuch(k)
  \/ \E m \in Modes : ReadLine(m) \/ Flush(m)
  \/ BufToString \/ OnInvalid \/ Clear \/ Restart \/ Destroy
Spec == Init /\ [][Next]_vars

Obs == IF ~alive THEN [dead |-> TRUE]
       ELSE [dead |-> FALSE, valid |-> valid, len |-> IF valid THEN Size(content) ELSE 0, empty |-> valid /\ content = <<>>, content |-> content]

(* Properties of the specification *)
TypeOK == content \in Seq(Tokens) /\ Size(content) <= Limit /\ (~valid => content = <<>>)
\* bytes are never invented, reordered or lost: the content changes by appending what was written or removing a line
Appends(n) == n \in {"Fill", "FillFd", "FillFdMax"}
Faithful == [][ valid' /\ alive' =>
   \/ content' = content
   \/ Appends(op'.name) /\ \E n \in 0 .. Len(op'.args[1]) : content' = content \o SubSeq(op'.args[1], 1, n)
   \/ op'.name = "ReadLine" /\ content = op'.res[2] \o <<NL>> \o content' /\ \A i \in 1 .. Len(op'.res[2]) : op'.res[2][i] # NL
   \/ op'.name \in {"Clear", "Restart", "Destroy"} /\ content' = <<>> ]_vars
OnlyTooMuchSpoils == [][ valid /\ ~valid' => IF op'.name \in {"Fill", "FillTooMuch"} THEN op'.res = 0 ELSE op'.res[1] = -1 ]_vars
ClearHeals == [][ ~valid /\ valid' => op'.name \in {"Clear", "Restart", "Destroy"} ]_vars

View == <<content, valid, alive>>
StateRec == [obs |-> Obs, hid |-> [c |-> content, v |-> valid]]
EmitInit == op.name = "none" => PrintT(ToJson([init |-> StateRec]))
Emit == PrintT(ToJson([s |-> StateRec, o |-> op', t |-> StateRec']))
=============================================================================
