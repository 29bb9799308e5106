----------------------------- MODULE PoolTrace -----------------------------
(* SQLitePool recorded: ask, got index, the database object behind it, returned.  "ret" is logged before the return takes
   effect, "got" after: so a handle may be re-issued only after its "ret".                                              *)
EXTENDS TraceLib, Pool
VARIABLES tr, l, objs
tvars == <<tr, l, max, used, free, objs>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ max = 0 /\ used = {} /\ free = {} /\ objs = <<>>
TraceNext ==
    \* the pool lives on from history to history: its handles stay, free
    \/ Is("begin") /\ max' = Ev.max - 1 /\ used' = {} /\ free' = {[h |-> i, since |-> 0, host |-> 0, dead |-> FALSE] : i \in 0..(Ev.max - 2)} /\ objs' = <<>>
    \/ Is("ask") /\ UNCHANGED <<max, used, free, objs>>
    \/ Is("got") /\ Take(Ev.th, Ev.h) /\ UNCHANGED objs
    \* the same index is always the same database object, different ones are different objects, never the shared base
    \/ Is("db") /\ [th |-> Ev.th, h |-> Ev.h] \in used /\ ~Ev.base
                /\ (\A i \in DOMAIN objs : (i = Ev.h) <=> (objs[i] = Ev.p))
                /\ objs' = (Ev.h :> Ev.p) @@ objs /\ UNCHANGED <<max, used, free>>
    \/ Is("ret") /\ Ev.same /\ Put(Ev.th, Ev.h) /\ UNCHANGED objs
    \/ Is("end") /\ ~Ev.stuck /\ used = {} /\ UNCHANGED <<max, used, free, objs>>
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
