-------------------------------- MODULE Port --------------------------------
(* The public command port of a server: reasons to block it come and go from any thread, a main thread opens it again, and the
   server detaches and attaches.  Every reason is counted; the port is open only while there is none, and is opened when none is left.  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Reasons, MaxTimes, MaxTurns, MISTAKE
VARIABLES bag,      \* reason -> how often it was given, as the server keeps it
          due,      \* and as it was asked
          open,     \* the port accepts connections
          flag,     \* what connections still open are told: close
          up,       \* "on", "going", "off": attached, detaching, detached
          seen,     \* the main thread saw that nothing blocks (only used by the mistake that looks without the lock)
          turns,    \* detachments so far
          private   \* the private and control ports
vars == <<bag, due, open, flag, up, seen, turns, private>>
Total(b) == IF Cardinality(Reasons) = 0 THEN 0 ELSE LET RECURSIVE S(_)
                                                        S(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE r \in R : TRUE IN b[r] + S(R \ {r}) IN S(Reasons)
None == [r \in Reasons |-> 0]
Init == bag = None /\ due = None /\ open = FALSE /\ flag = FALSE /\ up = "on" /\ seen = FALSE /\ turns = 0 /\ private = TRUE
Block(r) ==
    /\ due[r] < MaxTimes /\ due' = [due EXCEPT ![r] = @ + 1]
    /\ bag' = [bag EXCEPT ![r] = IF MISTAKE = "once" THEN 1 ELSE @ + 1] /\ flag' = TRUE
    /\ open' = (IF MISTAKE = "notSecond" /\ Total(bag) > 0 THEN open ELSE IF MISTAKE = "keepOpen" THEN open ELSE FALSE)
    /\ UNCHANGED <<up, seen, turns, private>>
Unblock(r) ==
    /\ due' = [due EXCEPT ![r] = IF @ > 0 THEN @ - 1 ELSE 0]
    /\ bag' = (IF MISTAKE = "liftsAll" /\ bag[r] > 0 THEN None ELSE IF MISTAKE = "once" THEN [bag EXCEPT ![r] = 0]
               ELSE [bag EXCEPT ![r] = IF @ > 0 THEN @ - 1 ELSE 0])
    /\ flag' = (IF Total(bag') = 0 /\ MISTAKE # "flagStays" THEN FALSE ELSE flag)
    /\ UNCHANGED <<open, up, seen, turns, private>>
\* what the outside asked for, one by one: kept apart from what the server believes
Look == MISTAKE = "noLock" /\ seen' = (Total(bag) = 0 /\ up = "on") /\ UNCHANGED <<bag, due, open, flag, up, turns, private>>
Poll == /\ (IF MISTAKE = "noLock" THEN seen ELSE Total(bag) = 0 /\ up = "on")
        /\ open' = TRUE /\ seen' = FALSE /\ UNCHANGED <<bag, due, flag, up, turns, private>>
Detach == up = "on" /\ turns < MaxTurns /\ up' = "going" /\ open' = FALSE /\ turns' = turns + 1 /\ UNCHANGED <<bag, due, flag, seen, private>>
Detached == up = "going" /\ up' = "off" /\ UNCHANGED <<bag, due, open, flag, seen, turns, private>>
\* attaching forgets the reasons
Attach == up = "off" /\ up' = "on" /\ bag' = None /\ due' = None /\ flag' = (IF MISTAKE = "flagKept" THEN flag ELSE FALSE) /\ UNCHANGED <<open, seen, turns, private>>
Next == (\E r \in Reasons : Block(r) \/ Unblock(r)) \/ Look \/ Poll \/ Detach \/ Detached \/ Attach
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll) /\ WF_vars(Look) /\ WF_vars(Detached) /\ WF_vars(Attach)
\* open only when nothing blocks it
Closed == open => Total(due) = 0 /\ up = "on"
\* old connections are told to close exactly while it is blocked
Told == flag <=> Total(due) > 0
\* each reason is lifted only by its own removal, as often as it was given (or by attaching)
Own == bag = due
\* unblocked for good: opened
Opens == []((Total(due) = 0 /\ up = "on") => <>(open \/ Total(due) > 0 \/ up # "on"))
=============================================================================
