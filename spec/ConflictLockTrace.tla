------------------------- MODULE ConflictLockTrace -------------------------
(* Recorded: ask / got / released of every guard (released is logged just before the guard is destroyed), the threads that
   cannot go on ("stuck" - with nothing else running they must be waiting for a held name) and memory kept at the end.   *)
EXTENDS TraceLib, ConflictLock
VARIABLES tr, l
tvars == <<tr, l, holder, waiting>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ holder = {} /\ waiting = {}
TraceNext ==
    \/ Is("begin") /\ holder' = {} /\ waiting' = {}
    \/ Is("ask") /\ Ask(Ev.th, Ev.id)
    \/ Is("got") /\ Obtain(Ev.th, Ev.id)
    \/ Is("rel") /\ Release(Ev.th, Ev.id)
    \/ Is("mem") /\ ~Ev.grew /\ UNCHANGED <<holder, waiting>>
    \/ Is("end") /\ ~Ev.stuck /\ waiting = {} /\ holder = {} /\ UNCHANGED <<holder, waiting>>
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
