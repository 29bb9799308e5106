------------------------------- MODULE DBTrace -------------------------------
(* Recorded Query commands against DB.tla: acceptance, rows answered, tables as another process sees them, what was
   replicated (same: a replica that runs the journal has the same tables), last id, and that the handle is left outside a
   transaction (closed).                                                                                                *)
EXTENDS TraceLib, DB
VARIABLES tr, l, d
tvars == <<tr, l, d>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
Table(rows) == [a \in {rows[k].a : k \in DOMAIN rows} |-> (CHOOSE k \in Range0(rows) : k.a = a).b]
Tables(e) == [ta |-> Table(e.ta), tb |-> Table(e.tb)]
LastInserted(after, q) == LET s == q.ss[1] IN IF s.rows[Len(s.rows)].a = 0 THEN Max(DOMAIN after[s.t]) ELSE s.rows[Len(s.rows)].a
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ d = [ta |-> <<>>, tb |-> <<>>]
TraceNext ==
    \/ Is("begin") /\ d' = [ta |-> <<>>, tb |-> <<>>]
    \/ /\ Is("query")
       /\ LET r == Run(d, Ev.q)
              kept == r.kind = "write" /\ ~Ev.lost
          IN /\ Ev.ok = (r.ok /\ ~(Ev.lost /\ r.kind = "write" /\ Ev.commits = 0 /\ Ev.code = "ROLLED BACK"))
             /\ Ev.closed
             /\ Ev.same
             /\ d' = Tables(Ev)
             /\ d' = IF kept THEN r.d ELSE d
             /\ Ev.commits <= 1
             /\ (Ev.commits = 1 => kept)
             /\ (d' # d => Ev.commits = 1)
             /\ (r.kind = "read" => Ev.rows = (IF Ev.shown THEN Answer(d, Ev.q.ss[1]) ELSE <<>>))
             /\ (kept /\ Ev.last # 0 => Ev.last = LastInserted(d', Ev.q))
             /\ (kept /\ Ev.mustlast => Ev.last # 0)
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
