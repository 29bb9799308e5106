-------------------------- MODULE ConflictLockImpl --------------------------
(* ConflictLockGuard: a control mutex, a map of mutexes with reference counts in least-recently-used order, pruned when
   it exceeds Keep.  MISTAKE: "none"; "nocount" forgets to count a waiter on an existing mutex; "forceprune" prunes
   whatever is oldest.                                                                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Ids, Keep, Rounds, MISTAKE
VARIABLES muts,  \* id -> [gen, locked] for the retained ones
          order, count, gen, pc, want, obj, left, holder, waiting
vars == <<muts, order, count, gen, pc, want, obj, left, holder, waiting>>
Init == /\ muts = <<>> /\ order = <<>> /\ count = <<>> /\ gen = 0
        /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> 0] /\ obj = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Rounds] /\ holder = {} /\ waiting = {}
RemoveAll(f, S) == [i \in DOMAIN f \ S |-> f[i]]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* prune from the back
RECURSIVE Victims(_, _, _)
Victims(ord, n, cnt) == IF n = 0 \/ ord = <<>> THEN {}
                        ELSE LET x == ord[Len(ord)] IN
                             (IF cnt[x] = 0 \/ MISTAKE = "forceprune" THEN {x} ELSE {}) \cup Victims(SubSeq(ord, 1, Len(ord) - 1), n - 1, cnt)
\* mutexes are addressed by generation: a pruned one is gone, though a thread may still wait on it
Enter(t, id) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
                /\ LET new == id \notin DOMAIN muts
                       m1 == IF new THEN muts @@ (id :> [g |-> gen + 1, locked |-> FALSE]) ELSE muts
                       c1 == IF new THEN count @@ (id :> 1) ELSE IF MISTAKE = "nocount" THEN count ELSE [count EXCEPT ![id] = @ + 1]
                       o1 == <<id>> \o Without(order, id)
                       v == IF Cardinality(DOMAIN m1) > Keep THEN Victims(o1, Cardinality(DOMAIN m1) - Keep, c1) ELSE {}
                   IN /\ muts' = RemoveAll(m1, v) /\ count' = RemoveAll(c1, v)
                      /\ order' = SelectSeq(o1, LAMBDA y : y \notin v)
                      /\ gen' = IF new THEN gen + 1 ELSE gen
                      /\ obj' = [obj EXCEPT ![t] = m1[id].g]
                /\ want' = [want EXCEPT ![t] = id] /\ pc' = [pc EXCEPT ![t] = "lock"]
                /\ waiting' = waiting \cup {[th |-> t, id |-> id]} /\ UNCHANGED holder
Lock(t) == /\ pc[t] = "lock"
           /\ IF want[t] \in DOMAIN muts /\ muts[want[t]].g = obj[t]
              THEN ~muts[want[t]].locked /\ muts' = [muts EXCEPT ![want[t]].locked = TRUE]
              ELSE UNCHANGED muts   \* locks a mutex that is not there any more
           /\ pc' = [pc EXCEPT ![t] = "in"]
           /\ waiting' = waiting \ {[th |-> t, id |-> want[t]]} /\ holder' = holder \cup {[th |-> t, id |-> want[t]]}
           /\ UNCHANGED <<order, count, gen, want, obj, left>>
Leave(t) == /\ pc[t] = "in"
            /\ IF want[t] \in DOMAIN muts THEN muts' = [muts EXCEPT ![want[t]].locked = FALSE] /\ count' = [count EXCEPT ![want[t]] = @ - 1]
               ELSE UNCHANGED <<muts, count>>
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ holder' = holder \ {[th |-> t, id |-> want[t]]}
            /\ UNCHANGED <<order, gen, want, obj, left, waiting>>
Next == \E t \in Threads : (\E id \in Ids : Enter(t, id)) \/ Lock(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Lock(t)) /\ WF_vars(Leave(t))
Abs == INSTANCE ConflictLock
Exclusive == Abs!Exclusive
Refines == [][\E t \in Threads, id \in Ids : Abs!Ask(t, id) \/ Abs!Obtain(t, id) \/ Abs!Release(t, id)]_<<holder, waiting>>
Bounded == Cardinality(DOMAIN muts) <= Keep + Cardinality(Threads)
InUseKept == \A t \in Threads : pc[t] # "idle" => (want[t] \in DOMAIN muts /\ muts[want[t]].g = obj[t])
Served == \A t \in Threads : (pc[t] = "lock") ~> (pc[t] = "in")
Sym == Permutations(Threads)
=============================================================================
