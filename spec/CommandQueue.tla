--------------------------- MODULE CommandQueue ---------------------------
(* The scheduled command queue as its users see it: commands carry the time they are scheduled for and the time they time
   out.  `items` lists the queued commands in the order they were pushed.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

VARIABLES now,    \* current time
          items   \* Seq([id, sched, tmo])
qvars == <<now, items>>

Idx == DOMAIN items
Expired(i) == items[i].tmo <= now
Due(i) == items[i].sched <= now
ExpiredIdx == {i \in Idx : Expired(i)}
DueIdx == {i \in Idx : Due(i)}

(* What a get may return: the timed out command with the earliest timeout; failing that the due command scheduled first,
   the one pushed first among equals.  Empty: nothing is available.                                                    *)
Candidates ==
    IF ExpiredIdx # {} THEN {i \in ExpiredIdx : \A j \in ExpiredIdx : items[i].tmo <= items[j].tmo}
    ELSE {i \in DueIdx : \A j \in DueIdx : items[i].sched < items[j].sched \/ (items[i].sched = items[j].sched /\ i <= j)}

(* All queued commands in schedule order, first-in-first-out among equals. *)
Before(a, b) == items[a].sched < items[b].sched \/ (items[a].sched = items[b].sched /\ a < b)
Ordered == LET S == SetToSortSeq(Idx, Before) IN [k \in DOMAIN S |-> items[S[k]].id]

QInit(t) == now = t /\ items = <<>>
Push(id, sched, tmo) == items' = Append(items, [id |-> id, sched |-> sched, tmo |-> tmo]) /\ UNCHANGED now
GetSome(id) == \E i \in Candidates : items[i].id = id /\ items' = RemoveAt(items, i) /\ UNCHANGED now
GetNone == Candidates = {} /\ UNCHANGED qvars
Clear == items' = <<>> /\ UNCHANGED now
(* `limit` is now + the given delay.  Commands exactly at the limit may go or stay ("more than ... in the future"). *)
Abandon(limit) ==
    \E keepEq \in {TRUE, FALSE} :
        items' = SelectSeq(items, LAMBDA x : x.sched < limit \/ (keepEq /\ x.sched = limit)) /\ UNCHANGED now
Advance(dt) == now' = now + dt /\ UNCHANGED items
=============================================================================
