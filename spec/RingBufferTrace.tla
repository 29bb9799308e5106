-------------------------- MODULE RingBufferTrace --------------------------
(* Recorded call histories of the real ring buffer: some placing of the steps of each call between its invocation and its
   response has to be a behaviour of RingBuffer.                                                                        *)
EXTENDS TraceLib, RingBuffer
VARIABLES tr, l, pend
tvars == <<tr, l, slots, cap, pend>>
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Step == l' = l + 1 /\ UNCHANGED tr
PendTh == {p.th : p \in pend}
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ slots = <<>> /\ cap = 0 /\ pend = {} /\ TLCSet(tr, 0)
Done(p) == pend' = pend \ {p}
Claimed(p) == pend' = (pend \ {p}) \cup {[p EXCEPT !.ph = 1]}
Silent(p) ==
    \/ p.op = "push" /\ p.ok /\ p.ph = 0 /\ Claim(p.id) /\ Claimed(p)
    \/ p.op = "push" /\ p.ok /\ p.ph = 1 /\ Fill(p.id) /\ Done(p)
    \/ p.op = "push" /\ ~p.ok /\ Full /\ Done(p)
    \/ p.op = "shutdown" /\ p.ph = 0 /\ ClaimShut /\ Claimed(p)
    \/ p.op = "shutdown" /\ p.ph = 1 /\ Fill(SHUT) /\ Done(p)
    \/ p.op = "pop" /\ p.id # 0 /\ Pop(p.id) /\ Done(p)
    \/ p.op = "pop" /\ p.id = 0 /\ Nothing /\ Done(p)
TraceNext ==
    \/ More /\ Ev.e = "begin" /\ Step /\ slots' = <<>> /\ cap' = Ev.cap /\ pend' = {}
    \/ More /\ Ev.e = "inv" /\ Step /\ pend' = pend \cup {[th |-> Ev.th, op |-> Ev.op, id |-> Ev.id, ok |-> Ev.ok, ph |-> 0]} /\ UNCHANGED <<slots, cap>>
    \/ More /\ Ev.e = "res" /\ Ev.th \notin PendTh /\ ~Ev.torn /\ Step /\ UNCHANGED <<slots, cap, pend>>
    \/ More /\ Ev.e = "end" /\ ~Ev.stuck /\ Step /\ UNCHANGED <<slots, cap, pend>>
    \/ More /\ Ev.e = "res" /\ Ev.th \in PendTh /\ (\E p \in pend : Silent(p)) /\ UNCHANGED <<tr, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceProgress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
TraceAccepted == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) + 1 \/ (PrintT(<<"REJECTED", t, TLCGet(t)>>) /\ FALSE)
=============================================================================
