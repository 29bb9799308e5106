-------------------------------- MODULE Jobs --------------------------------
(* The job queue kept by the Jobs plugin (plugins/Jobs.cpp), command by command.

   Time counts half seconds from a Sunday midnight.  A job table js maps job ids to records
     [state, name, created, next, last, rep, d, prio, parent, ra]
   state   QUEUED RUNNING RUNQUEUED PAUSED FINISHED CANCELLED FAILED      last    -1: never run
   rep     [kind, mods]: kind none HOURLY DAILY WEEKLY SCHEDULED STARTED FINISHED; mods a sequence of [k, n] with k in
           "add" (n half seconds), "hour", "day" (start of ...), "weekday"
   d       the JSON data: [v (payload, -1 none), rac (retryAfterCount, -9 none), onr (originalNextRun, -1 none), del (asks to be deleted)]
   ra      retryAfter in half seconds, 0: none                            parent  0: none
   Requests q are records; every operator gives [ok, js]: accepted or refused, and the table afterwards.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MISTAKE
Hour == 7200
Day == 172800
Sec(t) == t - (t % 2)
Weekday(t) == (t \div Day) % 7
ApplyMod(t, m) ==
    CASE m.k = "add" -> Sec(t + m.n)
      [] m.k = "hour" -> t - (t % Hour)
      [] m.k = "day" -> t - (t % Day)
      [] m.k = "weekday" -> Sec(t) + (((m.n - Weekday(t)) + 7) % 7) * Day
RECURSIVE ApplyMods(_, _)
ApplyMods(t, ms) == IF ms = <<>> THEN Sec(t) ELSE ApplyMods(ApplyMod(t, Head(ms)), Tail(ms))
None == -1
Null == -2     \* a date that cannot be computed: the change is refused
NoRep == [kind |-> "none", mods |-> <<>>]
\* When a job with this repeat rule is due next: relative to when it was last due, when it started, or now.
Again(now, sched, last, rep) ==
    CASE rep.kind = "none" -> None
      [] rep.kind = "HOURLY" -> ApplyMods(now, <<[k |-> "add", n |-> Hour], [k |-> "hour", n |-> 0]>>)
      [] rep.kind = "DAILY" -> ApplyMods(now, <<[k |-> "add", n |-> Day], [k |-> "day", n |-> 0]>>)
      [] rep.kind = "WEEKLY" -> ApplyMods(now, <<[k |-> "add", n |-> Day], [k |-> "weekday", n |-> 0], [k |-> "day", n |-> 0]>>)
      [] rep.kind = "FINISHED" -> ApplyMods(Sec(now), rep.mods)
      [] rep.kind = "STARTED" -> IF last < 0 THEN Null ELSE ApplyMods(last, rep.mods)
      [] rep.kind = "SCHEDULED" ->
            IF sched < 0 THEN Null ELSE
            LET first == ApplyMods(sched, rep.mods)
                every == first - Sec(sched)
                fixed == \A i \in DOMAIN rep.mods : rep.mods[i].k = "add"
            IN \* a short interval that was missed goes on at its own rhythm after now, the missed runs are not made up for
               IF /\ first <= Sec(now)
                  /\ every > 0
                  /\ every < 4 * Hour
                  /\ fixed
               THEN (IF MISTAKE = "anchorNow" THEN Sec(now) + every
                     ELSE Sec(sched + ((((Sec(now) - Sec(sched)) \div every) + (IF MISTAKE = "skipOne" THEN 0 ELSE 1)) * every)))
               ELSE first
Min2(a, b) == IF a < b THEN a ELSE b
Pending == {"QUEUED", "RUNQUEUED", "RUNNING", "PAUSED"}
Running == {"RUNNING", "RUNQUEUED"}
Prios == {0, 250, 500, 750, 850, 1000}
Ids(js) == DOMAIN js
Kids(js, i) == {c \in DOMAIN js : js[c].parent = i}
HasPending(js, i) == \E c \in Kids(js, i) : js[c].state \in (IF MISTAKE = "runningForgotten" THEN Pending \ {"RUNNING", "RUNQUEUED"} ELSE Pending)
Drop(js, S) == [i \in DOMAIN js \ S |-> js[i]]
Put(js, i, j) == [k \in DOMAIN js \cup {i} |-> IF k = i THEN j ELSE js[k]]
SetState(js, S, st) == [i \in DOMAIN js |-> IF i \in S THEN [js[i] EXCEPT !.state = st] ELSE js[i]]
Refused(js) == [ok |-> FALSE, js |-> js]
Done(js) == [ok |-> TRUE, js |-> js]
------------------------------------------------------------------------------
\* GetJob, GetJobs: who may be handed out, in which order, and what becomes of it.  crash: names failed on sight.
Due(js, now) == {i \in DOMAIN js : js[i].state \in {"QUEUED", "RUNQUEUED"} /\ js[i].next <= now}
Eligible(js, q, now) == {i \in Due(js, now) : js[i].name \in q.match /\ (q.prio >= 0 => js[i].prio = q.prio)}
NotWorse(js, a, b) == js[a].prio > js[b].prio \/ (js[a].prio = js[b].prio /\ js[a].next <= js[b].next)
Chosen(js, q, now, C) ==
    LET E == Eligible(js, q, now) IN
    /\ C \subseteq E
    /\ Cardinality(C) = Min2(q.n, Cardinality(E))
    /\ \A c \in C, e \in E \ C : NotWorse(js, c, e)
Handed(js, C, crash) == {c \in C : js[c].name \notin crash /\ js[c].d.rac < 10}
Manual == {"manual/x", "manual"}
TakeOne(j, now, crash) ==
    IF j.name \in crash THEN [j EXCEPT !.state = "FAILED"]
    ELSE IF j.ra = 0 THEN [j EXCEPT !.state = "RUNNING", !.last = Sec(now)]
    ELSE IF j.d.rac >= 10 THEN [j EXCEPT !.state = "FAILED"]
    ELSE LET a == Again(now, j.next, Sec(now), j.rep)
             t == IF MISTAKE = "retryNow" THEN j.next ELSE Sec(now) + j.ra IN
         [j EXCEPT !.state = "RUNQUEUED", !.last = Sec(now), !.next = IF a >= 0 THEN Min2(t, a) ELSE t,
                   !.d = IF j.name \in Manual THEN @ ELSE [@ EXCEPT !.rac = IF @ = -9 THEN 1 ELSE @ + 1,
                                                                   !.onr = IF j.rep.kind = "SCHEDULED" THEN j.next ELSE @]]
Take(js, C, now, crash) == [i \in DOMAIN js |-> IF i \in C THEN TakeOne(js[i], now, crash) ELSE js[i]]
------------------------------------------------------------------------------
\* CreateJob(s), one job: r has name, d, hasd, rep, repok, hasprio, prio, first (-1: now), unique, over, parent, ra, raok, dok.
\* id is the id reported for it.  js0: the table when the command started.
ParentOK(js, r) == r.parent = 0 \/ (r.parent \in DOMAIN js /\ js[r.parent].state \in Running \cup {"PAUSED"})
Same(js, r) == {i \in DOMAIN js : js[i].name = r.name}
Foreign(js, r, i) == js[i].parent # 0 /\ js[i].parent # r.parent
CreateValid(js0, r) == r.prio \in Prios /\ r.dok /\ r.raok /\ ParentOK(js0, r)
NoData == [v |-> -1, rac |-> -9, onr |-> -1, del |-> FALSE]
CreateOne(js, r, id, now) ==
    LET new == [state |-> IF r.parent # 0 /\ js[r.parent].state \in Running /\ MISTAKE # "childRuns" THEN "PAUSED" ELSE "QUEUED",
                name |-> r.name, created |-> Sec(now), next |-> IF r.first >= 0 THEN r.first ELSE now, last |-> -1,
                rep |-> r.rep, d |-> r.d, prio |-> r.prio, parent |-> r.parent, ra |-> r.ra]
        placed == r.repok /\ (r.parent # 0 => r.parent \in DOMAIN js /\ js[r.parent].parent = 0)
    IN IF r.unique /\ Same(js, r) # {}
       THEN IF id \notin Same(js, r) THEN Refused(js)
            ELSE IF js[id].d = r.d THEN Done(js)
            ELSE IF ~placed THEN Refused(js)
            ELSE IF r.over THEN Done([js EXCEPT ![id].rep = r.rep, ![id].prio = r.prio, ![id].d.v = IF r.d.v >= 0 THEN r.d.v ELSE @])
            ELSE Done(js)
       ELSE IF ~placed \/ id \in DOMAIN js THEN Refused(js) ELSE Done(Put(js, id, new))
RECURSIVE CreateAll(_, _, _, _)
CreateAll(js, rs, is, now) ==
    IF rs = <<>> THEN Done(js)
    ELSE LET a == CreateOne(js, Head(rs), Head(is), now) IN IF a.ok THEN CreateAll(a.js, Tail(rs), Tail(is), now) ELSE a
------------------------------------------------------------------------------
\* FinishJob and RetryJob.  q: id, retry, hasd, d, name ("": keep), hasprio, prio, next (-1: none), delay, ignoreRepeat
Finish(js, q, now) ==
    IF q.id \notin DOMAIN js THEN Refused(js) ELSE
    LET j == js[q.id]
        up == j.parent
    IN IF \/ j.state \notin Running
          \/ up # 0 /\ (up \notin DOMAIN js \/ js[up].state # "PAUSED")
       THEN Refused(js)
       ELSE
       LET js1 == Drop(js, {c \in Kids(js, q.id) : js[c].state \in {"FINISHED", "CANCELLED"}})
           rep == IF q.hasd /\ q.d.del THEN NoRep ELSE j.rep
           j1 == [j EXCEPT !.d = [(IF q.hasd THEN q.d ELSE j.d) EXCEPT !.rac = -9]]
           j2 == IF q.retry THEN [j1 EXCEPT !.name = IF q.name # "" THEN q.name ELSE @, !.prio = IF q.hasprio THEN q.prio ELSE @] ELSE j1
           sched == IF j.ra > 0 /\ rep.kind = "SCHEDULED" /\ j.d.onr >= 0 THEN j.d.onr ELSE j.next
           repeats == rep.kind # "none" /\ ~q.ignoreRepeat
           when == IF repeats THEN Again(now, sched, j.last, rep)
                   ELSE IF ~q.retry THEN None
                   ELSE IF q.next >= 0 THEN q.next
                   ELSE Sec(now) + q.delay * 2
       IN IF ~q.retry /\ HasPending(js1, q.id)
          THEN Done([i \in DOMAIN js1 |->
                      IF i = q.id THEN [j1 EXCEPT !.state = "PAUSED", !.next = j.last]
                      ELSE IF i \in Kids(js1, q.id) /\ js1[i].state = "PAUSED" THEN [js1[i] EXCEPT !.state = "QUEUED"] ELSE js1[i]])
          ELSE IF q.retry /\ ((q.hasprio /\ q.prio \notin Prios) \/ (~repeats /\ q.next < 0 /\ q.delay < 0)) THEN Refused(js)
          ELSE IF when = Null THEN Refused(js)
          ELSE IF when # None THEN Done(Put(js1, q.id, [j2 EXCEPT !.state = "QUEUED", !.next = when]))
          ELSE IF up # 0
          THEN LET js2 == Put(js1, q.id, [j2 EXCEPT !.state = "FINISHED"]) IN
               Done(IF HasPending(js2, up) /\ MISTAKE # "resumeAtOnce" THEN js2 ELSE SetState(js2, {up}, "QUEUED"))
          ELSE IF Kids(js1, q.id) # {} THEN Refused(js) ELSE Done(Drop(js1, {q.id}))
Cancel(js, q) ==
    IF q.id \notin DOMAIN js \/ Kids(js, q.id) # {} THEN Refused(js)
    ELSE IF js[q.id].parent = 0 THEN Refused(js)
    ELSE IF js[q.id].state \in {"FINISHED", "RUNNING", "PAUSED"} THEN Done(js)
    ELSE LET js1 == SetState(js, {q.id}, "CANCELLED")
             up == js[q.id].parent
         IN Done(IF /\ up \in DOMAIN js
                    /\ js[up].state = "PAUSED" \/ MISTAKE = "resumeRunning"
                    /\ ~\E c \in Kids(js1, up) : js1[c].state \in {"QUEUED", "RUNQUEUED", "RUNNING"}
                 THEN SetState(js1, {up}, "QUEUED") ELSE js1)
Fail(js, q) ==
    IF q.id \notin DOMAIN js THEN Refused(js)
    ELSE IF js[q.id].state \notin Running THEN Refused(js)
    ELSE Done(Put(js, q.id, [js[q.id] EXCEPT !.state = "FAILED", !.d = IF q.hasd THEN q.d ELSE @]))
Delete(js, q) ==
    IF q.id \notin DOMAIN js THEN Refused(js)
    ELSE IF js[q.id].state \in {"RUNNING", "PAUSED"} THEN Refused(js)
    ELSE Done(Drop(js, {q.id}))
Update(js, q, now) ==
    IF q.id \notin DOMAIN js THEN Refused(js) ELSE
    LET j == js[q.id]
        when == IF q.next >= 0 THEN q.next ELSE IF q.rep.kind # "none" THEN Again(now, j.next, j.last, q.rep) ELSE None
    IN IF ~q.hasd \/ ~q.repok \/ (q.hasprio /\ q.prio \notin Prios) \/ when = Null THEN Refused(js)
       ELSE Done(Put(js, q.id, [j EXCEPT !.d = [q.d EXCEPT !.onr = IF q.d.onr >= 0 THEN @ ELSE j.d.onr],
                                         !.rep = IF q.clear THEN NoRep ELSE IF q.rep.kind # "none" THEN q.rep ELSE @,
                                         !.next = IF when >= 0 THEN when ELSE @, !.prio = IF q.hasprio THEN q.prio ELSE @]))
Requeue(js, q) ==
    Done([i \in DOMAIN js |-> IF i \in q.ids THEN [js[i] EXCEPT !.state = "QUEUED", !.next = js[i].created, !.name = IF q.name # "" THEN q.name ELSE @,
                                                          !.d.rac = IF q.dec THEN (IF @ = -9 THEN 1 ELSE @) - 1 ELSE @] ELSE js[i]])
=============================================================================
