------------------------------ MODULE CacheMC ------------------------------
(* Reads, writes, failed commits and restarts in any order; acct is the size kept by triggers, last[n] when n was last used, as far as the node remembers. *)
EXTENDS Cache, TLC
CONSTANTS Names, Max, MaxOps
VARIABLES c, lru, acct, last, t, bad
vars == <<c, lru, acct, last, t, bad>>
Init == c = <<>> /\ lru = <<>> /\ acct = 0 /\ last = [n \in Names |-> 0] /\ t = 1 /\ bad = "no"
\* the accounted size follows the table row by row, as the triggers do
Account(a, b, n) == LET del == {k \in DOMAIN a \ {n} : k \notin DOMAIN b}
                        own == IF n \in DOMAIN a /\ MISTAKE # "replaceForgets" THEN a[n].len ELSE 0
                    IN ((acct - SumLen(a, del)) - own) + b[n].len
Write == \E n \in Names, len \in 1 .. Max, gone \in SUBSET Names :
    /\ Cardinality(gone) <= 1
    /\ \E d \in WriteResults(c, lru, Max, n, [len |-> len, val |-> t], gone) :
        \/ /\ c' = d
           /\ acct' = Account(c, d, n)
           /\ lru' = Used(SelectSeq(lru, LAMBDA x : x \in DOMAIN d), n)
           /\ last' = [last EXCEPT ![n] = t]
           /\ bad' = IF \E x \in (DOMAIN c \ DOMAIN d) \ (gone \cup {n}), y \in (DOMAIN c \cap DOMAIN d) \ {n} : last[x] > last[y] /\ last[y] > 0 THEN "evicted a newer one" ELSE bad
        \/ \* its commit fails
           /\ lru' = Used(IF MISTAKE = "rollbackForgets" THEN SelectSeq(lru, LAMBDA x : x \in DOMAIN d) ELSE lru, n)
           /\ last' = [last EXCEPT ![n] = t]
           /\ UNCHANGED <<c, acct, bad>>
Read == \E n \in DOMAIN c : lru' = Used(lru, n) /\ last' = [last EXCEPT ![n] = t] /\ UNCHANGED <<c, acct, bad>>
Restart == lru' = <<>> /\ last' = [n \in Names |-> 0] /\ UNCHANGED <<c, acct, bad>>
Next == t < MaxOps /\ t' = t + 1 /\ (Write \/ Read \/ Restart)
Spec == Init /\ [][Next]_vars
Bounded == Size(c) <= Max
Accounted == acct = Size(c)
NothingBad == bad = "no"
=============================================================================
