------------------------------- MODULE Server -------------------------------
(* What a client of a cluster sees of its commands: BedrockServer's runCommand with its retry loop, the queue of commands that
   wait for a commit, forwarding to the leader, blocking of writes and graceful shutdown; replication is the order of SQLiteCluster
   with every detail left out: one history, of which each node has a prefix.

   A command c is received by node Home(c), needs commit number dep[c] there before it runs, and if it writes it is run by the leader,
   on the node itself or through a second life of the command on the leader ("copy").  A life is new -> (waits) -> peeked ->
   written -> committed -> answered, and goes back to new on a conflict or when the node turns out not to lead.                *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Nodes, Cmds, MaxConflicts, MaxMoves, MISTAKE
VARIABLES kind,    \* c |-> "read" or "write"
          home,    \* c |-> node that gets it
          dep,     \* c |-> commit number it waits for
          life,    \* <<c, n>> |-> "none" | "new" | "wait" | "peeked" | "written" | "committed" | "ok" | "failed" | "unknown" | "sent"
          hist,    \* the sequence of committed commands
          have,    \* n |-> length of the prefix n has
          lead,    \* the leading node
          blocked, \* nodes whose writes are blocked
          term,    \* nodes asked to shut down
          up,      \* nodes running
          sawAt,   \* c |-> the number of commits the node had when it ran c (for the last time)
          moves, conflicts
vars == <<kind, home, dep, life, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
Ended == {"ok", "failed", "unknown"}
Life(c, n) == life[<<c, n>>]
Init ==
    /\ kind \in [Cmds -> {"read", "write"}] /\ home \in [Cmds -> Nodes] /\ dep \in [Cmds -> 0..1]
    /\ life = [x \in Cmds \X Nodes |-> "none"] /\ hist = <<>> /\ have = [n \in Nodes |-> 0]
    /\ lead \in Nodes /\ blocked = {} /\ term = {} /\ up = Nodes /\ sawAt = [c \in Cmds |-> 0] /\ moves = 0 /\ conflicts = 0
Set(c, n, s) == life' = [life EXCEPT ![<<c, n>>] = s]
Count(c) == Cardinality({i \in DOMAIN hist : hist[i] = c})
Rest == <<kind, home, dep>>

Accept(c) == /\ Life(c, home[c]) = "none" /\ home[c] \in up \ term /\ Set(c, home[c], "new")
             /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
\* a command for a commit not there yet is put aside (the copy on the leader of a forwarded command has nothing to wait for: whoever
\* forwards has waited, and the leader has all there is)
Wait(c, n) == /\ Life(c, n) = "new" /\ n \in up /\ dep[c] > have[n] /\ MISTAKE # "early" /\ Set(c, n, "wait")
              /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
Wake(c, n) == /\ Life(c, n) = "wait" /\ n \in up /\ (IF MISTAKE = "oneTooMany" THEN dep[c] < have[n] ELSE dep[c] <= have[n]) /\ Set(c, n, "new")
              /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
Peek(c, n) == /\ Life(c, n) = "new" /\ n \in up /\ (dep[c] <= have[n] \/ MISTAKE = "early")
              /\ sawAt' = [sawAt EXCEPT ![c] = have[n]] /\ Set(c, n, IF kind[c] = "read" THEN "ok" ELSE "peeked")
              /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, moves, conflicts>>
Process(c, n) == /\ Life(c, n) = "peeked" /\ n = lead /\ n \in up /\ Set(c, n, "written")
                 /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
\* throws in any stage, or its time is up: rolled back, answered
Fail(c, n) == /\ Life(c, n) \in {"new", "wait", "peeked", "written"} /\ n \in up
              /\ Set(c, n, "failed")
              /\ IF MISTAKE = "keepOnFail" /\ Life(c, n) = "written" /\ n = lead
                     THEN hist' = Append(hist, c) /\ have' = [have EXCEPT ![n] = @ + 1] ELSE UNCHANGED <<hist, have>>
              /\ UNCHANGED <<Rest, lead, blocked, term, up, sawAt, moves, conflicts>>
Commit(c, n) == /\ Life(c, n) = "written" /\ n = lead /\ n \in up /\ have[n] = Len(hist) /\ (n \notin blocked \/ MISTAKE = "commitWhileBlocked")
                /\ hist' = Append(hist, c) /\ have' = [have EXCEPT ![n] = @ + 1] /\ Set(c, n, "committed")
                /\ UNCHANGED <<Rest, lead, blocked, term, up, sawAt, moves, conflicts>>
Conflict(c, n) == /\ Life(c, n) = "written" /\ n \in up /\ conflicts < MaxConflicts /\ conflicts' = conflicts + 1
                  /\ Set(c, n, IF MISTAKE = "okOnConflict" THEN "ok" ELSE "new")
                  /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves>>
Answer(c, n) == /\ Life(c, n) = "committed" /\ n \in up /\ Set(c, n, IF MISTAKE = "rerun" /\ n # lead THEN "new" ELSE "ok")
                /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
\* no longer (or not) leading
Back(c, n) == /\ Life(c, n) = "written" /\ n # lead /\ n \in up /\ Set(c, n, "new")
              /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
Forward(c, n) == /\ Life(c, n) = "peeked" /\ n # lead /\ n \in up /\ lead \in up /\ Life(c, lead) = "none"
                 /\ life' = [life EXCEPT ![<<c, n>>] = "sent", ![<<c, lead>>] = "new"]
                 /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
Returned(c, n) == /\ Life(c, n) = "sent" /\ n \in up /\ \E m \in Nodes \ {n} : Life(c, m) \in Ended /\ Set(c, n, Life(c, m))
                  /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, moves, conflicts>>
\* the connection breaks: the outcome is unknown to the sender; asking again could run it twice
Broken(c, n) == /\ Life(c, n) = "sent" /\ n \in up /\ moves < MaxMoves /\ moves' = moves + 1
                /\ \E m \in Nodes \ {n} : /\ Life(c, m) # "none"
                     /\ life' = IF MISTAKE = "sendAgain" THEN [life EXCEPT ![<<c, n>>] = "new", ![<<c, m>>] = IF Life(c, m) \in Ended THEN "none" ELSE @]
                                ELSE IF MISTAKE = "brokenIsFailed" THEN [life EXCEPT ![<<c, n>>] = "failed"] ELSE [life EXCEPT ![<<c, n>>] = "unknown"]
                /\ UNCHANGED <<Rest, hist, have, lead, blocked, term, up, sawAt, conflicts>>
Replicate(n) == /\ n \in up /\ have[n] < Len(hist) /\ have' = [have EXCEPT ![n] = @ + 1]
                /\ UNCHANGED <<Rest, life, hist, lead, blocked, term, up, sawAt, moves, conflicts>>
Move == /\ moves < MaxMoves /\ moves' = moves + 1
        /\ lead' \in {n \in up \ {lead} : have[n] = Len(hist)}
        /\ UNCHANGED <<Rest, life, hist, have, blocked, term, up, sawAt, conflicts>>
Block(n) == /\ n \in up \ (blocked \cup term) /\ moves < MaxMoves /\ moves' = moves + 1 /\ blocked' = blocked \cup {n}
            /\ UNCHANGED <<Rest, life, hist, have, lead, term, up, sawAt, conflicts>>
Unblock(n) == /\ n \in blocked /\ blocked' = blocked \ {n}
              /\ UNCHANGED <<Rest, life, hist, have, lead, term, up, sawAt, moves, conflicts>>
Term(n) == /\ n \in up \ term /\ moves < MaxMoves /\ moves' = moves + 1 /\ term' = term \cup {n}
           /\ UNCHANGED <<Rest, life, hist, have, lead, blocked, up, sawAt, conflicts>>
\* a node leaves when all it accepted is answered; a leader hands over first
Exit(n) == /\ n \in term \cap up /\ (lead # n \/ up = {n}) /\ n \notin blocked
           /\ (MISTAKE = "exitEarly" \/ \A c \in Cmds : Life(c, n) \in Ended \cup {"none"})
           /\ up' = up \ {n}
           /\ UNCHANGED <<Rest, life, hist, have, lead, blocked, term, sawAt, moves, conflicts>>
HandOver == /\ lead \in term /\ lead' \in {n \in up \ term : have[n] = Len(hist)}
            /\ UNCHANGED <<Rest, life, hist, have, blocked, term, up, sawAt, moves, conflicts>>
Next == \/ \E c \in Cmds : Accept(c)
        \/ \E c \in Cmds, n \in Nodes : \/ Wait(c, n) \/ Wake(c, n) \/ Peek(c, n) \/ Process(c, n) \/ Fail(c, n) \/ Commit(c, n) \/ Conflict(c, n)
                                         \/ Answer(c, n) \/ Back(c, n) \/ Forward(c, n) \/ Returned(c, n) \/ Broken(c, n)
        \/ \E n \in Nodes : Replicate(n) \/ Block(n) \/ Unblock(n) \/ Term(n) \/ Exit(n)
        \/ Move \/ HandOver
\* a command that waits for a number never reached ends by its time limit
Fair == /\ \A c \in Cmds, n \in Nodes : /\ WF_vars(Wake(c, n)) /\ WF_vars(Peek(c, n)) /\ WF_vars(Process(c, n)) /\ SF_vars(Commit(c, n)) /\ WF_vars(Answer(c, n))
                                        /\ WF_vars(Back(c, n)) /\ WF_vars(Forward(c, n)) /\ WF_vars(Returned(c, n)) /\ WF_vars(Wait(c, n))
                                        \* time limits: for a number never reached, or a copy that can no longer be forwarded
                                        /\ WF_vars(Life(c, n) = "wait" /\ dep[c] > Len(hist) /\ Fail(c, n))
                                        /\ WF_vars(Life(c, n) = "peeked" /\ n # lead /\ (lead \notin up \/ Life(c, lead) # "none") /\ Fail(c, n))
        /\ \A n \in Nodes : WF_vars(Replicate(n)) /\ WF_vars(Unblock(n)) /\ WF_vars(Exit(n))
        /\ WF_vars(HandOver)
Spec == Init /\ [][Next]_vars /\ Fair
Outcome(c) == Life(c, home[c])
AtMostOnce == \A c \in Cmds : Count(c) <= 1
Truthful == \A c \in Cmds : /\ (Outcome(c) = "ok" /\ kind[c] = "write" => Count(c) = 1)
                            /\ (Outcome(c) = "failed" \/ kind[c] = "read" => Count(c) = 0)
\* C16
InTime == \A c \in Cmds : Outcome(c) \in {"ok", "peeked", "written", "committed", "sent"} => sawAt[c] >= dep[c] \/ \E m \in Nodes \ {home[c]} : Life(c, m) # "none"
\* C30
Still == [][\A n \in blocked : Len(hist') > Len(hist) => lead # n]_vars
\* C19: what was accepted is answered before the node is gone
NoneLost == \A n \in Nodes \ up : \A c \in Cmds : home[c] = n => Outcome(c) \in Ended \cup {"none"}
Answered == \A c \in Cmds : [](Outcome(c) = "new" => <>(Outcome(c) \in Ended))
Leaves == \A n \in Nodes : (n \in term /\ Cardinality(up) > 1) ~> (n \notin up \/ up \subseteq term)
=============================================================================
