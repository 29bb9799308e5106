------------------------------- MODULE Cache -------------------------------
(* The cache of the Cache plugin.  c maps names to [len, val]; lru is the order of use this node knows of, longest ago first (it
   is lost with the process and may name entries that are gone); max is the configured size.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MISTAKE
RECURSIVE SumLen(_, _)
SumLen(c, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN c[n].len + SumLen(c, S \ {n})
Size(c) == SumLen(c, DOMAIN c)
Less(c, S) == [n \in DOMAIN c \ S |-> c[n]]
With(c, n, e) == [k \in DOMAIN c \cup {n} |-> IF k = n THEN e ELSE c[k]]
Used(lru, n) == Append(SelectSeq(lru, LAMBDA x : x # n), n)
\* What can be left once there is room for len more bytes: entries go in order of use as far as it is known, then any.
RECURSIVE Room(_, _, _, _)
Room(c, lru, len, max) ==
    IF Size(c) + len <= max THEN {c}
    ELSE IF lru # <<>> THEN Room(Less(c, {IF MISTAKE = "evictNewest" THEN lru[Len(lru)] ELSE lru[1]}),
                                 IF MISTAKE = "evictNewest" THEN SubSeq(lru, 1, Len(lru) - 1) ELSE Tail(lru), len, max)
    ELSE UNION {Room(Less(c, {n}), <<>>, len, max) : n \in DOMAIN c}
Fits(len, max) == len > 0 /\ len <= max
\* all tables a successful write may leave; gone: the names its invalidation pattern matches
WriteResults(c, lru, max, n, e, gone) == {With(k, n, e) : k \in Room(Less(c, gone), lru, e.len, max)}
=============================================================================
