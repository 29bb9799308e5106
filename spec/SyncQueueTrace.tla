--------------------------- MODULE SyncQueueTrace ---------------------------
EXTENDS TraceLib, SyncQueue
VARIABLES tr, l, pend
tvars == <<tr, l, q, pend>>
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Step == l' = l + 1 /\ UNCHANGED tr
PendTh == {p.th : p \in pend}
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ q = <<>> /\ pend = {} /\ TLCSet(tr, 0)
Silent(p) == /\ \/ p.op = "push" /\ Push(p.id)
                \/ p.op = "pop" /\ p.id # 0 /\ Pop(p.id)
                \/ p.op = "pop" /\ p.id = 0 /\ PopNone
                \/ p.op = "front" /\ (IF p.id = 0 THEN q = <<>> ELSE q # <<>> /\ Head(q) = p.id) /\ UNCHANGED q
                \/ p.op = "clear" /\ Clear
                \/ p.op = "size" /\ Observe(p.id)
                \/ p.op = "empty" /\ (p.id = 1) = (q = <<>>) /\ UNCHANGED q
                \/ p.op = "each" /\ Each(p.all)
             /\ pend' = pend \ {p}
TraceNext ==
    \/ More /\ Ev.e = "begin" /\ Step /\ q' = <<>> /\ pend' = {}
    \/ More /\ Ev.e = "inv" /\ Step /\ pend' = pend \cup {[th |-> Ev.th, op |-> Ev.op, id |-> Ev.id, all |-> Ev.all]} /\ UNCHANGED q
    \/ More /\ Ev.e = "res" /\ Ev.th \notin PendTh /\ Step /\ UNCHANGED <<q, pend>>
    \* nobody can go on: fine if the poller sleeps on an empty queue
    \/ More /\ Ev.e = "end" /\ (Ev.asleep => q = <<>>) /\ ~Ev.stuck /\ Step /\ UNCHANGED <<q, pend>>
    \/ More /\ Ev.e = "res" /\ Ev.th \in PendTh /\ (\E p \in pend : Silent(p)) /\ UNCHANGED <<tr, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceProgress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
TraceAccepted == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) + 1 \/ (PrintT(<<"REJECTED", t, TLCGet(t)>>) /\ FALSE)
=============================================================================
