----------------------------- MODULE SyncQueue -----------------------------
(* A first-in first-out queue with atomic operations whose consumer sleeps in poll(). *)
EXTENDS Naturals, Integers, Sequences
VARIABLES q
Push(x) == q' = Append(q, x)
Pop(x) == q # <<>> /\ x = Head(q) /\ q' = Tail(q)
PopNone == q = <<>> /\ UNCHANGED q
Clear == q' = <<>>
Observe(n) == n = Len(q) /\ UNCHANGED q
Each(s) == s = q /\ UNCHANGED q
=============================================================================
