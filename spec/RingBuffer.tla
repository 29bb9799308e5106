----------------------------- MODULE RingBuffer -----------------------------
(* The lock-free ring buffer as a bounded queue.  A push is two steps, because a producer that has claimed a place and not
   yet filled it hides what later producers complete: Claim appends an unfilled place, Fill completes it.  A push fails
   only when all Cap places are claimed, a pop finds nothing only when there is no completed element in front.         *)
EXTENDS Naturals, Integers, Sequences
VARIABLES slots,   \* sequence of [id, ready]
          cap
SHUT == -1         \* the shutdown marker; one extra place is reserved for it
Claim(id) == /\ Len(slots) < cap
             /\ slots' = Append(slots, [id |-> id, ready |-> FALSE]) /\ UNCHANGED cap
Fill(id) == \E i \in DOMAIN slots : /\ slots[i] = [id |-> id, ready |-> FALSE]
                                    /\ slots' = [slots EXCEPT ![i].ready = TRUE] /\ UNCHANGED cap
Full == Len(slots) >= cap /\ UNCHANGED <<slots, cap>>
ClaimShut == slots' = Append(slots, [id |-> SHUT, ready |-> FALSE]) /\ UNCHANGED cap
Pop(id) == slots # <<>> /\ Head(slots) = [id |-> id, ready |-> TRUE] /\ slots' = Tail(slots) /\ UNCHANGED cap
Nothing == (IF slots = <<>> THEN TRUE ELSE ~Head(slots).ready) /\ UNCHANGED <<slots, cap>>
Next == \/ \E id \in 1..100 : Claim(id) \/ Fill(id) \/ Pop(id)
        \/ ClaimShut \/ Fill(SHUT) \/ Pop(SHUT)
=============================================================================
