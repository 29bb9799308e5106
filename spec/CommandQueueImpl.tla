------------------------- MODULE CommandQueueImpl -------------------------
(* The way the code keeps the queue: a multimap ordered by scheduled time and a second one from timeout to scheduled time.
   TLC checks that this design refines CommandQueue; with STALE = TRUE abandoning leaves the second index untouched (the
   defect repaired by the first "fix:" commit), which TLC must find.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS MaxTime, MaxCmds, STALE, Depth, EMIT
VARIABLES now, queue, lookup, nextId, out, hist, ghost
\* queue: Seq([id, sched, tmo]) sorted by sched (insertion at the end of equals); lookup: Seq([tmo, sched]) sorted by tmo
vars == <<now, queue, lookup, nextId, out, hist, ghost>>

InsertSorted(s, x, K(_)) ==
    LET n == Cardinality({i \in DOMAIN s : K(s[i]) <= K(x)})
    IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
FirstIdx(s, P(_)) == IF \E i \in DOMAIN s : P(s[i]) THEN Min({i \in DOMAIN s : P(s[i])}) ELSE 0
Log(r) == hist' = IF EMIT THEN Append(hist, r) ELSE hist

Init == now = 1 /\ queue = <<>> /\ lookup = <<>> /\ nextId = 1 /\ out = {} /\ hist = <<>> /\ ghost = <<>>
DoPush(sched, tmo) ==
    /\ nextId <= MaxCmds
    /\ queue' = InsertSorted(queue, [id |-> nextId, sched |-> sched, tmo |-> tmo], LAMBDA x : x.sched)
    /\ lookup' = InsertSorted(lookup, [tmo |-> tmo, sched |-> sched], LAMBDA x : x.tmo)
    /\ nextId' = nextId + 1
    /\ ghost' = Append(ghost, [id |-> nextId, sched |-> sched, tmo |-> tmo])
    /\ Log([op |-> "push", sched |-> sched, tmo |-> tmo])
    /\ UNCHANGED <<now, out>>
Ghost(id) == SelectSeq(ghost, LAMBDA x : x.id # id)
\* _dequeue: returns the index removed from queue (0: nothing) and the new lookup
DoGet ==
    LET stale == Len(lookup) > 0 /\ lookup[1].tmo <= now
        hit == IF stale THEN FirstIdx(queue, LAMBDA x : x.sched = lookup[1].sched /\ x.tmo = lookup[1].tmo) ELSE 0
        lk == IF stale /\ hit = 0 THEN Tail(lookup) ELSE lookup
    IN /\ \/ /\ hit # 0
             /\ out' = out \cup {queue[hit].id}
             /\ ghost' = Ghost(queue[hit].id)
             /\ queue' = RemoveAt(queue, hit)
             /\ lookup' = Tail(lookup)
          \/ /\ hit = 0 /\ (IF Len(queue) = 0 THEN FALSE ELSE queue[1].sched <= now)
             /\ out' = out \cup {queue[1].id}
             /\ ghost' = Ghost(queue[1].id)
             /\ queue' = Tail(queue)
             /\ lookup' = LET k == FirstIdx(lk, LAMBDA y : y.tmo = queue[1].tmo /\ y.sched = queue[1].sched)
                          IN IF k = 0 THEN lk ELSE RemoveAt(lk, k)
          \/ /\ hit = 0 /\ (IF Len(queue) = 0 THEN TRUE ELSE queue[1].sched > now)
             /\ lookup' = lk
             /\ UNCHANGED <<queue, out, ghost>>
       /\ Log([op |-> "get"])
       /\ UNCHANGED <<now, nextId>>
DoClear == /\ queue # <<>>
           /\ queue' = <<>> /\ lookup' = <<>> /\ ghost' = <<>> /\ Log([op |-> "clear"]) /\ UNCHANGED <<now, nextId, out>>
DoAbandon(d) ==
    LET lim == now + d IN
    /\ queue' = SelectSeq(queue, LAMBDA x : x.sched < lim)
    /\ ghost' = SelectSeq(ghost, LAMBDA x : x.sched < lim)
    /\ lookup' = IF STALE THEN lookup ELSE SelectSeq(lookup, LAMBDA y : y.sched < lim)
    /\ Log([op |-> "abandon", ms |-> d])
    /\ UNCHANGED <<now, nextId, out>>
DoAdvance == now < MaxTime /\ now' = now + 1 /\ Log([op |-> "advance", dt |-> 1]) /\ UNCHANGED <<queue, lookup, nextId, out, ghost>>
Next == \/ \E s \in 1..MaxTime : \E t \in 1..MaxTime : DoPush(s, t)
        \/ DoGet \/ DoClear \/ \E d \in 0..2 : DoAbandon(d)
        \/ DoAdvance
Spec == Init /\ [][Next]_vars

(* Refinement: ghost is the abstract queue in order of arrival. *)
Abs == INSTANCE CommandQueue WITH items <- ghost
AbsNext == \/ \E s, t \in 1..MaxTime : \E id \in 1..MaxCmds : Abs!Push(id, s, t)
           \/ \E id \in 1..MaxCmds : Abs!GetSome(id)
           \/ Abs!Clear \/ \E d \in 0..2 : Abs!Abandon(now + d) \/ Abs!Advance(1)
Refines == [][AbsNext]_<<now, ghost>>
IndexConsistent == Len(lookup) = Len(queue)
QueueIsGhost == {queue[i] : i \in DOMAIN queue} = {ghost[i] : i \in DOMAIN ghost} /\ Len(queue) = Len(ghost)
NothingTwice == \A i \in DOMAIN queue : queue[i].id \notin out
(* The step a get would take delivers a command whenever the abstraction has one to deliver. *)
AvailableMeansGet == (Abs!Candidates # {}) => ENABLED (DoGet /\ out' # out)
EmitHist == ~EMIT \/ Len(hist) < Depth \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
