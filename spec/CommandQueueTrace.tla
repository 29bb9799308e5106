------------------------- MODULE CommandQueueTrace -------------------------
(* Recorded operations of the real queue: every event carries the result of the call and the queue's contents afterwards
   (ids in schedule order) and its size.                                                                              *)
EXTENDS TraceLib, CommandQueue
VARIABLES tr, l
tvars == <<tr, l, now, items>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
After == Has(Ev, "ids") => (Ordered' = Ev.ids /\ Ev.size = Len(items'))
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ now = 0 /\ items = <<>>
TraceNext ==
    \/ Is("begin") /\ now' = Ev.now /\ items' = <<>>
    \/ Is("advance") /\ now' = Ev.now /\ Ev.now >= now /\ UNCHANGED items
    \/ Is("push") /\ Push(Ev.id, Ev.sched, Ev.tmo) /\ After
    \/ Is("get") /\ Ev.id # 0 /\ GetSome(Ev.id) /\ After
    \/ Is("get") /\ Ev.id = 0 /\ GetNone /\ After
    \/ Is("clear") /\ Clear /\ After
    \/ Is("getall") /\ Ev.all = Ordered /\ Clear /\ After
    \/ Is("abandon") /\ Abandon(now + Ev.us) /\ After
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
