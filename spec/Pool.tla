-------------------------------- MODULE Pool --------------------------------
(* A pool of at most `max` handles: each has one user at a time, a waiter gets one as soon as one is free.  Idle sockets are
   kept for a while only and closed afterwards (`since` = when it was returned).                                        *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANT Limit             \* idle limit (sockets), in the unit of `now`
VARIABLES max, used, free  \* used: set of [th, h]; free: set of [h, since, host, dead]
Handles == {u.h : u \in used} \cup {f.h : f \in free}
\* ---- database handles
Take(th, h) == /\ ~\E u \in used : u.h = h
               /\ (h \in {f.h : f \in free} \/ Cardinality(Handles) < max)
               /\ used' = used \cup {[th |-> th, h |-> h]} /\ free' = {f \in free : f.h # h} /\ UNCHANGED max
Put(th, h) == /\ [th |-> th, h |-> h] \in used
              /\ used' = used \ {[th |-> th, h |-> h]} /\ free' = free \cup {[h |-> h, since |-> 0, host |-> 0, dead |-> FALSE]} /\ UNCHANGED max
MayWait == free = {} /\ Cardinality(used) = max
\* ---- sockets
Live(host, now) == {f \in free : f.host = host /\ ~f.dead}
TakeIdle(th, h, host, now) == /\ \E f \in Live(host, now) : f.h = h /\ now - f.since <= Limit
                              /\ used' = used \cup {[th |-> th, h |-> h]} /\ free' = {f \in free : f.h # h} /\ UNCHANGED max
\* A new connection is made only when no live idle one to that host could be used.
TakeNew(th, h, host, now) == /\ h \notin Handles /\ {f \in Live(host, now) : now - f.since < Limit} = {}
                             /\ used' = used \cup {[th |-> th, h |-> h]} /\ UNCHANGED <<free, max>>
PutIdle(th, h, host, now, dd) == /\ [th |-> th, h |-> h] \in used
                             /\ used' = used \ {[th |-> th, h |-> h]} /\ free' = free \cup {[h |-> h, since |-> now, host |-> host, dead |-> dd]} /\ UNCHANGED max
PeerClosed(h) == free' = {IF f.h = h THEN [f EXCEPT !.dead = TRUE] ELSE f : f \in free} /\ UNCHANGED <<used, max>>
\* what is still open at time now: everything in use, and exactly the idle ones within the limit (either way on the boundary)
OpenOK(open, now, dead) == /\ \A u \in used : u.h \in open \/ u.h \in dead
                           /\ \A f \in free : now - f.since < Limit => (f.h \in open \/ f.h \in dead)
                           /\ \A f \in free : now - f.since > Limit => f.h \notin open
                           /\ \A h \in open : h \in Handles
Expire(now) == free' = {f \in free : now - f.since <= Limit} /\ UNCHANGED <<used, max>>
OneUser == \A a, b \in used : a.h = b.h => a = b
=============================================================================
