----------------------------- MODULE CacheTrace -----------------------------
EXTENDS TraceLib, Cache
VARIABLES tr, l, c, lru, max
tvars == <<tr, l, c, lru, max>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
Seen == [n \in {Ev.entries[k].name : k \in DOMAIN Ev.entries} |-> (CHOOSE r \in Range0(Ev.entries) : r.name = n).x]
\* no name twice, and the accounted size is the real one
Sound == Cardinality({Ev.entries[k].name : k \in DOMAIN Ev.entries}) = Len(Ev.entries) /\ Ev.size = Size(c') /\ Size(c') <= max
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ c = <<>> /\ lru = <<>> /\ max = 0
TraceNext ==
    \/ Is("begin") /\ c' = <<>> /\ lru' = <<>> /\ max' = Ev.max
    \/ Is("restart") /\ lru' = <<>> /\ UNCHANGED <<c, max>>
    \/ Is("read") /\ Ev.ok /\ Ev.name \in DOMAIN c /\ Ev.name \in Range0(Ev.match) /\ Ev.val = c[Ev.name].val
                  /\ lru' = Used(lru, Ev.name) /\ c' = Seen /\ c' = c /\ UNCHANGED max /\ Sound
    \/ Is("read") /\ ~Ev.ok /\ Range0(Ev.match) \cap DOMAIN c = {} /\ c' = Seen /\ c' = c /\ UNCHANGED <<lru, max>> /\ Sound
    \/ Is("write") /\ Ev.ok /\ Fits(Ev.x.len, max) /\ c' = Seen /\ c' \in WriteResults(c, lru, max, Ev.name, Ev.x, Range0(Ev.gone))
                   /\ lru' = Used(SelectSeq(lru, LAMBDA x : x \in DOMAIN c'), Ev.name) /\ UNCHANGED max /\ Sound
    \* processed, but its commit failed
    \/ Is("write") /\ Ev.lost /\ c' = Seen /\ c' = c /\ lru' = Used(lru, Ev.name) /\ UNCHANGED max /\ Sound
    \/ Is("write") /\ ~Ev.ok /\ ~Ev.lost /\ (~Fits(Ev.x.len, max) \/ Ev.name = "") /\ c' = Seen /\ c' = c /\ UNCHANGED <<lru, max>> /\ Sound
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
