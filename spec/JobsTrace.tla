----------------------------- MODULE JobsTrace -----------------------------
(* Every recorded command against Jobs.tla.  Whatever differs from what the specification asks for is classified by the
   property it breaks (Tags); only differences concerning the properties in Care stop the trace, after others the
   specification carries on from what was observed.                                                                      *)
EXTENDS TraceLib, Jobs
CONSTANT Care
VARIABLES tr, l, js, crash
tvars == <<tr, l, js, crash>>
Ev == Traces[tr][l]
Seen(e) == [i \in {e.jobs[k].id : k \in DOMAIN e.jobs} |-> (CHOOSE k \in Range0(e.jobs) : k.id = i).j]
Family(a, b, i) == \E t \in {a, b} : i \in DOMAIN t /\ (t[i].parent # 0 \/ Kids(t, i) # {})
Sched(a, b, i) == IF Family(a, b, i) THEN "C21" ELSE "C22"
Waiting == {"QUEUED", "RUNQUEUED"}
\* expected x, observed o, before b
Diff(b, x, o) == UNION {
    IF i \notin DOMAIN x THEN {Sched(b, o, i)} \cup (IF o[i].state \in Waiting THEN {"C20"} ELSE {})
    ELSE IF i \notin DOMAIN o THEN {Sched(b, x, i)}
    ELSE (IF x[i].state # o[i].state THEN {Sched(b, x, i)} \cup (IF \/ o[i].state \in Waiting
                                                                 \/ o[i].state = "RUNNING" THEN {"C20"} ELSE {}) ELSE {})
         \cup (IF x[i].parent # o[i].parent THEN {"C21"} ELSE {})
         \cup (IF [x[i] EXCEPT !.state = "", !.parent = 0] # [o[i] EXCEPT !.state = "", !.parent = 0] THEN {"C22"} ELSE {})
    : i \in {k \in DOMAIN x \cup DOMAIN o : ~(k \in DOMAIN x /\ k \in DOMAIN o /\ x[k] = o[k])}}
\* acceptance expected x.ok, observed ok
Judge(b, x, o, ok, tag) == (IF x.ok # ok THEN {tag} ELSE {}) \cup Diff(b, x.js, o)
Q(e) == [e.q EXCEPT !.match = Range0(@)]
GetTags(e, b, o) ==
    LET ret == e.ret
        R == {ret[k].id : k \in DOMAIN ret}
        C == {i \in Eligible(b, Q(e), e.now) : i \in R \/ i \notin DOMAIN o \/ (o[i] # b[i])}
        wrong == \/ Cardinality(R) # Len(ret)
                 \/ ~(R \subseteq DOMAIN b)
        x == Take(b, C, e.now, crash)
        f(k) == b[ret[k].id]
    IN IF wrong THEN {"C20"} ELSE
       IF Eligible(b, Q(e), e.now) = {} THEN (IF e.ok \/ R # {} THEN {"C20"} ELSE {}) \cup Diff(b, b, o)
       ELSE (IF e.ok /\ Chosen(b, Q(e), e.now, C) /\ R = Handed(b, C, crash) THEN {} ELSE {"C20"})
            \cup (IF \A k \in DOMAIN ret : k = Len(ret) \/ (\A m \in (k + 1) .. Len(ret) : NotWorse(b, ret[k].id, ret[m].id)) THEN {} ELSE {"C20"})
            \cup (IF \A k \in DOMAIN ret : /\ ret[k].name = f(k).name
                                           /\ ret[k].d = f(k).d
                                           /\ ret[k].prio = f(k).prio
                                           /\ ret[k].parent = f(k).parent
                                           /\ ret[k].next = f(k).next
                                           /\ ret[k].last = f(k).last THEN {} ELSE {"C20"})
            \cup (IF \A k \in DOMAIN ret : /\ Range0(ret[k].fin) = {c \in Kids(b, ret[k].id) : b[c].state = "FINISHED"}
                                           /\ Range0(ret[k].can) = {c \in Kids(b, ret[k].id) : b[c].state = "CANCELLED"}
                                           /\ ret[k].pdata = (IF f(k).parent \in DOMAIN b THEN b[f(k).parent].d ELSE NoData) THEN {} ELSE {"C21"})
            \cup Diff(b, x, o)
CreateTags(e, b, o) ==
    LET rs == e.rs
        tag == IF \E k \in DOMAIN rs : rs[k].parent # 0 THEN "C21" ELSE "C22"
        valid == \A k \in DOMAIN rs : CreateValid(b, rs[k])
        foreign == \E k \in DOMAIN rs : rs[k].unique /\ \E i \in Same(b, rs[k]) : Foreign(b, rs[k], i)
        allforeign == \E k \in DOMAIN rs : rs[k].unique /\ Same(b, rs[k]) # {} /\ \A i \in Same(b, rs[k]) : Foreign(b, rs[k], i)
        x == CreateAll(b, rs, e.newids, e.now)
        \* would it be refused whatever ids were used
        fresh == [k \in DOMAIN rs |-> IF rs[k].unique /\ Same(b, rs[k]) # {} THEN CHOOSE i \in Same(b, rs[k]) : TRUE ELSE 1000000 + k]
    IN IF e.ok THEN (IF valid /\ ~allforeign /\ Len(e.newids) = Len(rs) THEN Judge(b, x, o, TRUE, tag) ELSE {tag})
       ELSE (IF /\ valid
                /\ ~foreign
                /\ \A j, k \in DOMAIN rs : j # k => rs[j].name # rs[k].name
                \* several jobs of that name: any of them may be the one that is found
                /\ \A k \in DOMAIN rs : rs[k].unique /\ Cardinality(Same(b, rs[k])) > 1 => Len(rs) = 1 /\ \A i \in Same(b, rs[k]) : CreateAll(b, rs, <<i>>, e.now).ok
                /\ CreateAll(b, rs, fresh, e.now).ok THEN {tag} ELSE {}) \cup Diff(b, b, o)
Tags(e, b, o) ==
    LET q == e.q
        t(id) == IF id \in DOMAIN b THEN Sched(b, b, id) ELSE "C22"
    IN CASE e.verb = "get" -> GetTags(e, b, o)
         [] e.verb = "create" -> CreateTags(e, b, o)
         [] e.verb = "finish" -> Judge(b, Finish(b, q, e.now), o, e.ok, t(q.id))
         [] e.verb = "cancel" -> Judge(b, Cancel(b, q), o, e.ok, "C21")
         [] e.verb = "fail" -> Judge(b, Fail(b, q), o, e.ok, t(q.id))
         [] e.verb = "delete" -> Judge(b, Delete(b, q), o, e.ok, t(q.id))
         [] e.verb = "update" -> Judge(b, Update(b, q, e.now), o, e.ok, "C22")
         [] e.verb = "requeue" -> Judge(b, Requeue(b, [q EXCEPT !.ids = Range0(@)]), o, e.ok, "C22")
         [] e.verb = "query" -> (IF e.ok = (q.id \in DOMAIN b) /\ (e.ok => e.shown = b[q.id].state) THEN {} ELSE {"C20"}) \cup Diff(b, b, o)
         [] e.verb \in {"crash", "clear", "other"} -> (IF e.ok \/ e.verb = "other" THEN {} ELSE {"C20"}) \cup Diff(b, b, o)
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ js = <<>> /\ crash = {}
TraceNext ==
    \/ /\ l <= Len(Traces[tr])
       /\ l' = l + 1
       /\ UNCHANGED tr
       /\ \/ Ev.e = "begin" /\ js' = <<>> /\ crash' = {}
          \/ Ev.e = "restart" /\ crash' = {} /\ UNCHANGED js
          \/ /\ Ev.e = "cmd"
             /\ js' = Seen(Ev)
             /\ crash' = IF Ev.verb = "crash" THEN crash \cup Range0(Ev.names) ELSE IF Ev.verb = "clear" THEN {} ELSE crash
             /\ (IF Ev.lost THEN Diff(js, js, js') ELSE Tags(Ev, js, js')) \cap Care = {}
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
