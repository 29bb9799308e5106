------------------------------ MODULE JobsMC ------------------------------
(* Workers and clients using the job queue of Jobs.tla in every order, within small bounds.  out[i]: how many workers were handed
   job i and have neither reported back nor let its retry time pass.  gave[i]: the time until which it must not be handed out
   again (retryAfter).  resumed[i]: how often parent i was resumed since it last handed over.                               *)
EXTENDS Jobs, TLC
CONSTANTS MaxId, MaxT, MaxOps, Careless, Retries, Repeats
VARIABLES js, now, out, gave, resumed, ops, bad
vars == <<js, now, out, gave, resumed, ops, bad>>
I == 1 .. MaxId
Init == js = <<>> /\ now = 0 /\ out = [i \in I |-> 0] /\ gave = [i \in I |-> 0] /\ resumed = [i \in I |-> 0] /\ ops = 0 /\ bad = "no"
Req(parent, ra, rep, prio) == [name |-> "a", d |-> NoData, dok |-> TRUE, rep |-> rep, repok |-> TRUE, ra |-> ra, raok |-> TRUE, prio |-> prio, first |-> -1,
                               unique |-> FALSE, over |-> TRUE, parent |-> parent]
Op == ops < MaxOps /\ ops' = ops + 1
\* what the table did to parents: resumed from PAUSED
After(a) ==
    /\ js' = a.js
    /\ resumed' = [i \in I |-> IF i \in DOMAIN js /\ i \in DOMAIN a.js /\ js[i].state = "PAUSED" /\ a.js[i].state = "QUEUED" THEN resumed[i] + 1
                                ELSE IF i \in DOMAIN a.js /\ a.js[i].state = "PAUSED" THEN 0 ELSE resumed[i]]
    /\ bad' = IF \E i \in DOMAIN js \cap DOMAIN a.js : /\ Kids(js, i) # {}
                                                        /\ js[i].state = "PAUSED"
                                                        /\ a.js[i].state = "QUEUED"
                                                        /\ \E c \in Kids(a.js, i) : a.js[c].state \in Pending
              THEN "resumed early" ELSE bad
Create == \E p \in {0} \cup DOMAIN js, ra \in (IF Retries THEN {0, 4} ELSE {0}), rep \in {NoRep} \cup (IF Repeats THEN {[kind |-> "FINISHED", mods |-> <<[k |-> "add", n |-> 2]>>]} ELSE {}) :
    \E i \in I \ DOMAIN js, pr \in (IF Repeats THEN {500, 750} ELSE {500}) :
    /\ \A k \in I \ DOMAIN js : i <= k
    /\ p # 0 => pr = 500
    /\ LET r == Req(p, ra, rep, pr)
           a == CreateOne(js, r, i, now)
       IN ParentOK(js, r) /\ a.ok /\ After(a)
    /\ Op /\ out' = [out EXCEPT ![i] = 0] /\ UNCHANGED <<now, gave>>
Get == \E n \in 1 .. 2, C \in SUBSET I :
    LET q == [match |-> {"a"}, n |-> n, prio |-> -1] IN
    /\ C \subseteq DOMAIN js
    /\ C # {}
    /\ Chosen(js, q, now, C)
    /\ js' = Take(js, C, now, {})
    /\ bad' = IF \E c \in Handed(js, C, {}) : out[c] > 0 /\ (js[c].ra = 0 \/ now < gave[c]) THEN "handed out twice" ELSE bad
    /\ out' = [i \in I |-> IF i \in Handed(js, C, {}) THEN out[i] + 1 ELSE out[i]]
    /\ gave' = [i \in I |-> IF i \in C THEN Sec(now) + (IF js[i].rep.kind = "none" THEN js[i].ra ELSE Min2(js[i].ra, 2)) ELSE gave[i]]
    /\ Op /\ UNCHANGED <<now, resumed>>
\* a worker reports back about a job it was handed (Careless: or anybody about any job)
Report == \E i \in DOMAIN js, v \in {"finish", "retry", "fail"} :
    /\ out[i] > 0 \/ Careless
    /\ LET q == [id |-> i, retry |-> v = "retry", hasd |-> FALSE, d |-> NoData, name |-> "", hasprio |-> FALSE, prio |-> 0, next |-> -1, delay |-> 0, ignoreRepeat |-> v = "retry"]
           a == IF v = "fail" THEN Fail(js, q) ELSE Finish(js, q, now)
       IN a.ok /\ After(a) /\ out' = [out EXCEPT ![i] = 0]
    /\ Op /\ UNCHANGED <<now, gave>>
CancelIt == \E i \in DOMAIN js : LET a == Cancel(js, [id |-> i]) IN
    /\ a.ok
    /\ a.js # js
    /\ After(a)
    /\ out' = [out EXCEPT ![i] = 0]
    /\ Op /\ UNCHANGED <<now, gave>>
DeleteIt == \E i \in DOMAIN js : LET a == Delete(js, [id |-> i]) IN
    /\ a.ok
    /\ js[i].parent # 0 => js[js[i].parent].state # "PAUSED"       \* see DESIGN.md: deleting the last child a parent waits for leaves it waiting
    /\ Kids(js, i) = {}
    /\ After(a)
    /\ out' = [out EXCEPT ![i] = 0]
    /\ Op /\ UNCHANGED <<now, gave>>
\* the answer to a GetJob could not be delivered
GiveBack == \E i \in DOMAIN js : /\ out[i] = 1
                                 /\ js[i].state \in Running
                                 /\ js' = Requeue(js, [ids |-> {i}, name |-> "", dec |-> TRUE]).js
                                 /\ out' = [out EXCEPT ![i] = 0]
                                 /\ Op /\ UNCHANGED <<now, gave, resumed, bad>>
Tick == now < MaxT /\ now' = now + 2 /\ UNCHANGED <<js, out, gave, resumed, ops, bad>>
Next == Create \/ Get \/ Report \/ CancelIt \/ DeleteIt \/ GiveBack \/ Tick
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
NothingBad == bad = "no"
\* a child is not available to workers, let alone running, while its parent is: the parent has to hand over first
ChildrenWait == \A c \in DOMAIN js : js[c].parent # 0 /\ js[c].state \in {"QUEUED", "RUNNING", "RUNQUEUED"} => js[c].parent \in DOMAIN js /\ js[js[c].parent].state = "PAUSED"
\* a parent that waits has something to wait for (a failed child has to be cancelled or retried by somebody)
ParentWaitsForSomething == \A p \in DOMAIN js : js[p].state = "PAUSED" /\ js[p].parent = 0 => \E c \in Kids(js, p) : js[c].state \in {"QUEUED", "RUNNING", "RUNQUEUED", "FAILED"}
ResumedOnce == \A i \in I : resumed[i] <= 1
RunningIsOut == \A i \in DOMAIN js : js[i].state = "RUNNING" => out[i] > 0
OneOut == \A i \in DOMAIN js : js[i].ra = 0 => out[i] <= 1
=============================================================================
