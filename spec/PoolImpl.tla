------------------------------ MODULE PoolImpl ------------------------------
(* SQLitePool: available/in-use index sets under one mutex and a condition variable, notify_one on return, the handle itself
   created outside the mutex by whoever got the index.  MISTAKE: "none"; "nonotify"; "late" marks an index used after the
   mutex is released.                                                                                                   *)
EXTENDS Naturals, Integers, FiniteSets, TLC
CONSTANTS Threads, Max, Rounds, MISTAKE
VARIABLES avail, inuse, pc, idx, left, waitset, notified, objs, used, free
vars == <<avail, inuse, pc, idx, left, waitset, notified, objs, used, free>>
Init == /\ avail = {} /\ inuse = {} /\ pc = [t \in Threads |-> "idle"] /\ idx = [t \in Threads |-> -1] /\ left = [t \in Threads |-> Rounds]
        /\ waitset = {} /\ notified = {} /\ objs = {} /\ used = {} /\ free = {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Mark(t, i) == idx' = [idx EXCEPT ![t] = i] /\ IF MISTAKE = "late" THEN UNCHANGED inuse ELSE inuse' = inuse \cup {i}
Get(t) == /\ (pc[t] = "idle" /\ left[t] > 0) \/ (pc[t] = "waiting" /\ t \in notified)
          /\ notified' = notified \ {t}
          /\ IF avail # {} THEN /\ Mark(t, Min(avail)) /\ avail' = avail \ {Min(avail)} /\ pc' = [pc EXCEPT ![t] = "have"]
                                /\ used' = used \cup {[th |-> t, h |-> Min(avail)]} /\ free' = {f \in free : f.h # Min(avail)} /\ UNCHANGED waitset
             ELSE IF Cardinality(avail) + Cardinality(inuse) < Max
             THEN LET i == Cardinality(avail) + Cardinality(inuse) IN
                  Mark(t, i) /\ pc' = [pc EXCEPT ![t] = "have"] /\ used' = used \cup {[th |-> t, h |-> i]} /\ UNCHANGED <<avail, waitset, free>>
             ELSE pc' = [pc EXCEPT ![t] = "waiting"] /\ waitset' = waitset \cup {t} /\ UNCHANGED <<avail, inuse, idx, used, free>>
          /\ left' = IF pc[t] = "idle" THEN [left EXCEPT ![t] = @ - 1] ELSE left
          /\ UNCHANGED objs
Create(t) == /\ pc[t] = "have" /\ objs' = objs \cup {idx[t]} /\ pc' = [pc EXCEPT ![t] = "using"]
             /\ inuse' = inuse \cup {idx[t]} /\ UNCHANGED <<avail, idx, left, waitset, notified, used, free>>
Return(t) == /\ pc[t] = "using" /\ avail' = avail \cup {idx[t]} /\ inuse' = inuse \ {idx[t]} /\ pc' = [pc EXCEPT ![t] = "notify"]
             /\ used' = used \ {[th |-> t, h |-> idx[t]]} /\ free' = free \cup {[h |-> idx[t], since |-> 0, host |-> 0, dead |-> FALSE]}
             /\ UNCHANGED <<idx, left, waitset, notified, objs>>
Notify(t) == /\ pc[t] = "notify" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ IF MISTAKE = "nonotify" \/ waitset = {} THEN UNCHANGED <<waitset, notified>>
                ELSE \E x \in waitset : waitset' = waitset \ {x} /\ notified' = notified \cup {x}
             /\ UNCHANGED <<avail, inuse, idx, left, objs, used, free>>
Next == \E t \in Threads : Get(t) \/ Create(t) \/ Return(t) \/ Notify(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Get(t)) /\ WF_vars(Create(t)) /\ WF_vars(Return(t)) /\ WF_vars(Notify(t))
Abs == INSTANCE Pool WITH max <- Max, Limit <- 10
OneUser == Abs!OneUser
Bounded == Cardinality(avail \cup inuse) <= Max
Refines == [][\E t \in Threads, h \in 0..Max : Abs!Take(t, h) \/ Abs!Put(t, h)]_<<used, free>>
AllDone == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "idle")
=============================================================================
