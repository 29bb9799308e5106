-------------------------- MODULE CommandQueueLin --------------------------
(* Concurrent histories of the real queue: invocation and response of every call.  Some order of the calls, each taking
   effect at one instant between its invocation and its response, has to be a behaviour of CommandQueue.             *)
EXTENDS TraceLib, CommandQueue
VARIABLES tr, l, pend
tvars == <<tr, l, now, items, pend>>
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Step == l' = l + 1 /\ UNCHANGED tr
PendTh == {p.th : p \in pend}
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ now = 0 /\ items = <<>> /\ pend = {} /\ TLCSet(tr, 0)
Apply(p) == \/ p.op = "push" /\ Push(p.id, p.sched, p.tmo)
            \/ p.op = "get" /\ GetSome(p.id)
Lin == /\ More /\ Ev.e = "res" /\ Ev.th \in PendTh
       /\ \E p \in pend : Apply(p) /\ pend' = pend \ {p}
       /\ UNCHANGED <<tr, l>>
TraceNext ==
    \/ More /\ Ev.e = "begin" /\ Step /\ now' = Ev.now /\ items' = <<>> /\ pend' = {}
    \/ More /\ Ev.e = "inv" /\ Step /\ pend' = pend \cup {[th |-> Ev.th, op |-> Ev.op, id |-> Ev.id, sched |-> Ev.sched, tmo |-> Ev.tmo]} /\ UNCHANGED <<now, items>>
    \/ More /\ Ev.e = "res" /\ Ev.th \notin PendTh /\ Step /\ UNCHANGED <<now, items, pend>>
    \/ More /\ Ev.e = "end" /\ Ev.size = Len(items) /\ Step /\ UNCHANGED <<now, items, pend>>
    \/ Lin
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceProgress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
TraceAccepted == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) + 1 \/ (PrintT(<<"REJECTED", t, TLCGet(t)>>) /\ FALSE)
=============================================================================
