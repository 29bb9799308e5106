--------------------------- MODULE SyncQueueImpl ---------------------------
(* The wake-up protocol: pushers append and write a byte into the pipe; the poller sleeps until the pipe is readable,
   empties the pipe, then pops until the queue is empty.  MISTAKE: "none"; "late" drains the pipe after popping;
   "edge" writes only when the queue was empty and then drains after looking.                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Pushers, Per, MISTAKE
VARIABLES q, pipe, pc, left, cpc, got
vars == <<q, pipe, pc, left, cpc, got>>
Init == q = <<>> /\ pipe = 0 /\ pc = [p \in Pushers |-> "idle"] /\ left = [p \in Pushers |-> Per] /\ cpc = "poll" /\ got = <<>>
PushQ(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ q' = Append(q, <<p, left[p]>>) /\ pipe' = pipe + 1 /\ UNCHANGED <<pc, cpc, got>>
Wake == cpc = "poll" /\ pipe > 0 /\ cpc' = (IF MISTAKE = "late" THEN "pop" ELSE "drain") /\ UNCHANGED <<q, pipe, pc, left, got>>
Drain == cpc = "drain" /\ pipe' = 0 /\ cpc' = (IF MISTAKE = "late" THEN "poll" ELSE "pop") /\ UNCHANGED <<q, pc, left, got>>
PopQ == /\ cpc = "pop"
        /\ IF q = <<>> THEN cpc' = (IF MISTAKE = "late" THEN "drain" ELSE "poll") /\ UNCHANGED <<q, got>>
           ELSE got' = Append(got, Head(q)) /\ q' = Tail(q) /\ UNCHANGED cpc
        /\ UNCHANGED <<pipe, pc, left>>
Next == (\E p \in Pushers : PushQ(p)) \/ Wake \/ Drain \/ PopQ
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Abs == INSTANCE SyncQueue
Refines == [][\E p \in Pushers, n \in 1..Per : Abs!Push(<<p, n>>) \/ Abs!Pop(<<p, n>>)]_q
NoSleepOnWork == (cpc = "poll" /\ q # <<>>) => pipe > 0
AllServed == <>[](Len(got) = Cardinality(Pushers) * Per)
=============================================================================
