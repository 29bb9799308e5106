----------------------------- MODULE PortTrace -----------------------------
(* A recorded run of a real server whose public port was blocked and unblocked from several threads, against Port.tla.
   Requests take effect at some moment between being sent and being answered; probes see the state of some moment of theirs.  *)
EXTENDS TraceLib
VARIABLES tr, l, bag, pend, watch, up, since
tvars == <<tr, l, bag, pend, watch, up, since>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
Reasons == {Traces[tr][k].reason : k \in {k \in DOMAIN Traces[tr] : Traces[tr][k].e = "ask"}}
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty(b) == \A r \in DOMAIN b : b[r] = 0
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* what a probe may have seen so far
Now(b, u) == (IF Empty(b) /\ u THEN {"free"} ELSE {}) \cup (IF ~Empty(b) \/ ~u THEN {"blocked"} ELSE {})
See(w, b, u) == [x \in DOMAIN w |-> w[x] \cup Now(b, u)]
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ bag = <<>> /\ pend = <<>> /\ watch = <<>> /\ up = TRUE /\ since = 0 /\ TLCSet(tr, 0)
Effect(id) ==
    /\ pend[id].todo
    /\ pend' = [pend EXCEPT ![id].todo = FALSE]
    /\ bag' = (LET r == pend[id].reason n == Get(bag, r, 0) IN Put(bag, r, IF pend[id].op = "block" THEN n + 1 ELSE IF n > 0 THEN n - 1 ELSE 0))
    /\ watch' = See(watch, bag', up) /\ UNCHANGED <<tr, l, up, since>>
TraceNext ==
    \/ \E id \in DOMAIN pend : Effect(id)
    \/ Is("ask") /\ pend' = Put(pend, Ev.id, [op |-> Ev.op, reason |-> Ev.reason, todo |-> TRUE]) /\ UNCHANGED <<bag, watch, up, since>>
    \/ Is("done") /\ Ev.id \in DOMAIN pend /\ ~pend[Ev.id].todo /\ Ev.reply = "200 OK" /\ pend' = Drop(pend, Ev.id) /\ since' = Ev.t /\ UNCHANGED <<bag, watch, up>>
    \/ Is("probe") /\ watch' = Put(watch, Ev.id, Now(bag, up)) /\ UNCHANGED <<bag, pend, up, since>>
    \* the port accepts only when nothing blocks it, and is opened soon when nothing is left to block it
    \/ Is("probed") /\ (Ev.open => "free" \in watch[Ev.id]) /\ (~Ev.open => "blocked" \in watch[Ev.id] \/ Ev.t - since < Ev.grace)
                    /\ watch' = Drop(watch, Ev.id) /\ UNCHANGED <<bag, pend, up, since>>
    \* a connection from before is told to close exactly while the port is blocked
    \/ Is("told") /\ (Ev.close => "blocked" \in watch[Ev.id]) /\ (~Ev.close => "free" \in watch[Ev.id])
                  /\ watch' = Drop(watch, Ev.id) /\ UNCHANGED <<bag, pend, up, since>>
    \* the control and private ports go on
    \/ Is("other") /\ Ev.ok /\ UNCHANGED <<bag, pend, watch, up, since>>
    \* the reasons shown
    \/ Is("shown") /\ (\A id \in DOMAIN pend : FALSE) /\ (\A r \in DOMAIN bag : bag[r] = Cardinality({k \in DOMAIN Ev.list : Ev.list[k] = r}))
                   /\ (\A k \in DOMAIN Ev.list : Ev.list[k] \in DOMAIN bag) /\ UNCHANGED <<bag, pend, watch, up, since>>
    \/ Is("detach") /\ up /\ up' = FALSE /\ watch' = See(watch, bag, FALSE) /\ UNCHANGED <<bag, pend, since>>
    \* attached: nothing blocks any more
    \/ Is("attach") /\ ~up /\ up' = TRUE /\ bag' = <<>> /\ since' = Ev.t /\ watch' = See(watch, <<>>, TRUE) /\ UNCHANGED pend
    \/ l > Len(Traces[tr]) /\ UNCHANGED tvars
\* silent steps: the furthest position per trace
TraceProgress == TLCSet(tr, IF TLCGet(tr) < l THEN l ELSE TLCGet(tr))
TraceAccepted == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) + 1 \/ (PrintT(<<"REJECTED", t, TLCGet(t)>>) /\ FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
