---------------------------- MODULE ConflictLock ----------------------------
(* Named locks: at most one holder of a non-zero name; zero never waits.  `waiting` are the threads asking for a lock.  *)
EXTENDS Naturals, Integers, FiniteSets
VARIABLES holder,   \* set of [th, id] held
          waiting   \* set of [th, id] asked for
HeldBy(th) == {h \in holder : h.th = th}
Ask(th, id) == waiting' = waiting \cup {[th |-> th, id |-> id]} /\ UNCHANGED holder
Obtain(th, id) == /\ [th |-> th, id |-> id] \in waiting
                  /\ id # 0 => ~\E h \in holder : h.id = id
                  /\ waiting' = waiting \ {[th |-> th, id |-> id]} /\ holder' = holder \cup {[th |-> th, id |-> id]}
Release(th, id) == /\ [th |-> th, id |-> id] \in holder
                   /\ holder' = holder \ {[th |-> th, id |-> id]} /\ UNCHANGED waiting
\* Nobody may be left waiting when no call is in progress, unless for a name that is held by someone.
NobodyForgotten == \A x \in waiting : x.id # 0 /\ \E h \in holder : h.id = x.id
Exclusive == \A a, b \in holder : (a.id = b.id /\ a.id # 0) => a = b
=============================================================================
