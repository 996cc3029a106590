-------------------------------- MODULE Proto --------------------------------
(* What a caller of an accelerator may rely on: between the start of an      *)
(* operation and its return every task is executed once, and nothing is      *)
(* executed at other times; after release nothing happens any more.          *)
EXTENDS Integers
CONSTANTS NT, CALLS
VARIABLES calls, open, exec, gone
vars == <<calls, open, exec, gone>>
T == 1..NT
Init == calls = 0 /\ open = FALSE /\ exec = [t \in T |-> 0] /\ gone = FALSE
Start == ~open /\ ~gone /\ calls < CALLS /\ open' = TRUE /\ exec' = [t \in T |-> 0] /\ UNCHANGED <<calls, gone>>
Exec(t) == open /\ exec[t] = 0 /\ exec' = [exec EXCEPT ![t] = 1] /\ UNCHANGED <<calls, open, gone>>
Return == open /\ (\A t \in T : exec[t] = 1) /\ open' = FALSE /\ calls' = calls + 1 /\ UNCHANGED <<exec, gone>>
Release == ~open /\ ~gone /\ gone' = TRUE /\ UNCHANGED <<calls, open, exec>>
Next == Start \/ (\E t \in T : Exec(t)) \/ Return \/ Release
Spec == Init /\ [][Next]_vars
=============================================================================
