------------------------------ MODULE Oom ------------------------------
(***************************************************************************)
(* A process that uses the library, as seen by the memory it is given: a   *)
(* library call asks the system for memory, the system grants or refuses,  *)
(* the call runs the user's functions, returns, or ends the process.       *)
(*                                                                         *)
(* The rule: after a refusal the only thing left to do is abort().         *)
(***************************************************************************)
EXTENDS Naturals, TLC
VARIABLES phase,      \* user: user code runs; lib: inside a library call; denied: a request was refused; aborting: abort() was called; ended
          exhausted,  \* the system grants nothing any more
          how,        \* how the process ended
          asked       \* some request was refused
vars == <<phase, exhausted, how, asked>>
Phases == {"user", "lib", "denied", "aborting", "ended"}
Init == phase = "user" /\ exhausted \in BOOLEAN /\ how = "" /\ asked = FALSE

Call == phase = "user" /\ phase' = "lib" /\ UNCHANGED <<exhausted, how, asked>>
Grant == phase = "lib" /\ ~exhausted /\ UNCHANGED <<phase, exhausted, how, asked>>
Refuse == phase = "lib" /\ phase' = "denied" /\ asked' = TRUE /\ UNCHANGED <<exhausted, how>>
Callback == phase = "lib" /\ UNCHANGED vars
Return == phase = "lib" /\ phase' = "user" /\ UNCHANGED <<exhausted, how, asked>>
Abort == phase = "denied" /\ phase' = "aborting" /\ UNCHANGED <<exhausted, how, asked>>
Die == phase = "aborting" /\ phase' = "ended" /\ how' = "SIGABRT" /\ UNCHANGED <<exhausted, asked>>
Exit == phase = "user" /\ phase' = "ended" /\ how' = "exit" /\ UNCHANGED <<exhausted, asked>>
Exhaust == ~exhausted /\ phase \in {"user", "lib"} /\ exhausted' = TRUE /\ UNCHANGED <<phase, how, asked>>
Next == Call \/ Grant \/ Refuse \/ Callback \/ Return \/ Abort \/ Die \/ Exit \/ Exhaust
Spec == Init /\ [][Next]_vars /\ WF_vars(Abort) /\ WF_vars(Die)

TypeOK == phase \in Phases /\ how \in {"", "SIGABRT", "exit"}
\* a process that ended in any other way than abort() was never refused memory by a library call
OnlyAbort == phase = "ended" => (asked <=> how = "SIGABRT")
\* no library function goes on, or gives control back, after a refusal
NoWayBack == [][ (phase \in {"denied", "aborting"}) => ~(phase' \in {"user", "lib"}) ]_vars
Ends == phase = "denied" ~> (phase = "ended" /\ how = "SIGABRT")
=============================================================================
