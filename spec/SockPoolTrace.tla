--------------------------- MODULE SockPoolTrace ---------------------------
(* The socket pools recorded under a virtual clock (milliseconds) against a listening server that reports which connections
   are still open.  A return takes effect between "ret" and "returned"; a get between "ask" and "got".                   *)
EXTENDS TraceLib, Pool
VARIABLES tr, l, dead, asking, hosts, coming
tvars == <<tr, l, max, used, free, dead, asking, hosts, coming>>
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Is(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
S == <<max, used, free>>
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ max = 0 /\ used = {} /\ free = {} /\ dead = {} /\ asking = {} /\ hosts = <<>> /\ coming = {}
\* `always`: the usable idle connections that have stayed so since the thread asked; `closed`: those the peer closed since.
Asked(th) == CHOOSE a \in asking : a.th = th
Main ==
    \/ Is("begin") /\ UNCHANGED S /\ UNCHANGED <<dead, asking, hosts>>
    \/ Is("ask") /\ asking' = asking \cup {[th |-> Ev.th, host |-> Ev.host, now |-> Ev.now,
                                            closed |-> {},
                                            always |-> {f.h : f \in {x \in free : x.host = Ev.host /\ ~x.dead /\ x.h \notin coming /\ Ev.now - x.since < Limit}}]}
                 /\ UNCHANGED S /\ UNCHANGED <<dead, hosts>>
    \/ Is("got") /\ Ev.id > 0
                 /\ (\A u \in used : u.h # Ev.id)
                 /\ (IF (\E f \in free : f.h = Ev.id)
                    THEN \E f \in free : f.h = Ev.id /\ f.host = Ev.host /\ (f.h \in dead => f.h \in Asked(Ev.th).closed) /\ Ev.now - f.since <= Limit
                    ELSE \* a new one: no idle connection was there all the while, but for those others may just have taken
                         /\ Ev.id \notin DOMAIN hosts
                         /\ Cardinality(Asked(Ev.th).always) <= Cardinality({a \in asking : a.th # Ev.th /\ a.host = Ev.host}))
                 /\ used' = used \cup {[th |-> Ev.th, h |-> Ev.id]} /\ free' = {f \in free : f.h # Ev.id} /\ UNCHANGED max
                 /\ hosts' = (Ev.id :> Ev.host) @@ hosts
                 /\ asking' = {[a EXCEPT !.always = @ \ {Ev.id}] : a \in asking \ {Asked(Ev.th)}} /\ UNCHANGED dead
    \/ Is("ret") /\ PutIdle(Ev.th, Ev.id, hosts[Ev.id], Ev.now, Ev.id \in dead) /\ UNCHANGED <<dead, asking, hosts>>
    \/ Is("returned") /\ UNCHANGED S /\ UNCHANGED <<dead, asking, hosts>>
    \/ Is("peerclose") /\ PeerClosed(Ev.id) /\ dead' = dead \cup {Ev.id} /\ UNCHANGED hosts
                       /\ asking' = {[a EXCEPT !.always = @ \ {Ev.id}, !.closed = @ \cup {Ev.id}] : a \in asking}
    \/ Is("drop") /\ used' = used \ {[th |-> Ev.th, h |-> Ev.id]} /\ UNCHANGED <<max, free, dead, asking, hosts>>
    \/ Is("time") /\ OpenOK(Range0(Ev.open), Ev.now, dead) /\ Expire(Ev.now) /\ UNCHANGED <<dead, hosts>>
                  /\ asking' = {[a EXCEPT !.always = {}] : a \in asking}
    \/ Is("end") /\ ~Ev.stuck /\ UNCHANGED S /\ UNCHANGED <<dead, asking, hosts>>
TraceNext ==
    \/ Main /\ coming' = CASE Ev.e = "ret" -> coming \cup {Ev.id} [] Ev.e = "returned" -> coming \ {Ev.id} [] OTHER -> coming
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
