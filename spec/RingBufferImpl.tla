--------------------------- MODULE RingBufferImpl ---------------------------
(* The algorithm of SRingBuffer.h, one atomic access per step, any number of producers and one consumer.
   MISTAKE = "none"; "stale": full is decided from an outdated write index (unsigned underflow included);
   "early": the read index is advanced before the slot is emptied, with C slots instead of C+1.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Producers, Pushes, Cap, MISTAKE
VARIABLES w, r, st, dat, ppc, cw, cr, left, nid, cpc, ci, cd, popped, own, failed
vars == <<w, r, st, dat, ppc, cw, cr, left, nid, cpc, ci, cd, popped, own, failed>>
Size == IF MISTAKE = "early" THEN Cap ELSE Cap + 1
Idx(t) == t % Size
SHUT == -1
Big == 1000
Minus(a, b) == IF a >= b THEN a - b ELSE Big   \* unsigned
Init == /\ w = 0 /\ r = 0 /\ st = [i \in 0..(Size - 1) |-> "E"] /\ dat = [i \in 0..(Size - 1) |-> 0]
        /\ ppc = [p \in Producers |-> "idle"] /\ cw = [p \in Producers |-> 0] /\ cr = [p \in Producers |-> 0]
        /\ left = [p \in Producers |-> Pushes] /\ nid = [p \in Producers |-> 0]
        /\ cpc = "idle" /\ ci = 0 /\ cd = 0 /\ popped = <<>> /\ own = <<>> /\ failed = FALSE
Start(p) == /\ ppc[p] = "idle" /\ left[p] > 0
            /\ left' = [left EXCEPT ![p] = @ - 1] /\ nid' = [nid EXCEPT ![p] = 10 * p + left[p]]
            /\ cw' = [cw EXCEPT ![p] = w] /\ ppc' = [ppc EXCEPT ![p] = "chk"]
            /\ UNCHANGED <<w, r, st, dat, cr, cpc, ci, cd, popped, own, failed>>
Chk(p) == /\ ppc[p] = "chk"
          /\ IF Minus(cw[p], r) >= Cap
             THEN ppc' = [ppc EXCEPT ![p] = IF MISTAKE = "stale" THEN "fail" ELSE "again"]
             ELSE ppc' = [ppc EXCEPT ![p] = "cas"]
          /\ UNCHANGED <<w, r, st, dat, cw, cr, left, nid, cpc, ci, cd, popped, own, failed>>
Again(p) == /\ ppc[p] = "again"
            /\ IF w = cw[p] THEN ppc' = [ppc EXCEPT ![p] = "idle"] /\ failed' = TRUE /\ UNCHANGED cw
               ELSE ppc' = [ppc EXCEPT ![p] = "chk"] /\ cw' = [cw EXCEPT ![p] = w] /\ UNCHANGED failed
            /\ UNCHANGED <<w, r, st, dat, cr, left, nid, cpc, ci, cd, popped, own>>
Fail(p) == /\ ppc[p] = "fail" /\ ppc' = [ppc EXCEPT ![p] = "idle"] /\ failed' = TRUE
           /\ UNCHANGED <<w, r, st, dat, cw, cr, left, nid, cpc, ci, cd, popped, own>>
Cas(p) == /\ ppc[p] = "cas"
          /\ IF w = cw[p] THEN w' = w + 1 /\ own' = Append(own, nid[p]) /\ ppc' = [ppc EXCEPT ![p] = "data"] /\ UNCHANGED cw
             ELSE cw' = [cw EXCEPT ![p] = w] /\ ppc' = [ppc EXCEPT ![p] = "chk"] /\ UNCHANGED <<w, own>>
          /\ UNCHANGED <<r, st, dat, cr, left, nid, cpc, ci, cd, popped, failed>>
Data(p) == /\ ppc[p] = "data" /\ dat' = [dat EXCEPT ![Idx(cw[p])] = nid[p]] /\ ppc' = [ppc EXCEPT ![p] = "rdy"]
           /\ UNCHANGED <<w, r, st, cw, cr, left, nid, cpc, ci, cd, popped, own, failed>>
Rdy(p) == /\ ppc[p] = "rdy" /\ st' = [st EXCEPT ![Idx(cw[p])] = "R"] /\ ppc' = [ppc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<w, r, dat, cw, cr, left, nid, cpc, ci, cd, popped, own, failed>>
PopStart == /\ cpc = "idle" /\ ci' = r /\ cpc' = "look"
            /\ UNCHANGED <<w, r, st, dat, ppc, cw, cr, left, nid, cd, popped, own, failed>>
Look == /\ cpc = "look" /\ cpc' = IF st[Idx(ci)] = "E" THEN "idle" ELSE "take"
        /\ UNCHANGED <<w, r, st, dat, ppc, cw, cr, left, nid, ci, cd, popped, own, failed>>
Take == /\ cpc = "take" /\ cd' = dat[Idx(ci)] /\ cpc' = "empty"
        /\ UNCHANGED <<w, r, st, dat, ppc, cw, cr, left, nid, ci, popped, own, failed>>
Empty == /\ cpc = "empty"
         /\ IF MISTAKE = "early" THEN r' = ci + 1 /\ UNCHANGED st ELSE st' = [st EXCEPT ![Idx(ci)] = "E"] /\ UNCHANGED r
         /\ cpc' = "adv"
         /\ popped' = IF MISTAKE = "early" THEN Append(popped, cd) ELSE popped
         /\ UNCHANGED <<w, dat, ppc, cw, cr, left, nid, ci, cd, own, failed>>
Adv == /\ cpc = "adv"
       /\ IF MISTAKE = "early" THEN st' = [st EXCEPT ![Idx(ci)] = "E"] /\ UNCHANGED <<r, popped>>
          ELSE r' = ci + 1 /\ UNCHANGED st /\ popped' = Append(popped, cd)
       /\ cpc' = "idle"
       /\ UNCHANGED <<w, dat, ppc, cw, cr, left, nid, ci, cd, own, failed>>
Next == (\E p \in Producers : Start(p) \/ Chk(p) \/ Again(p) \/ Fail(p) \/ Cas(p) \/ Data(p) \/ Rdy(p)) \/ PopStart \/ Look \/ Take \/ Empty \/ Adv
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- the abstract queue
Ready(t) == (st[Idx(t)] = "R" \/ (cpc = "adv" /\ ci = t)) /\ ~\E p \in Producers : ppc[p] \in {"data", "rdy"} /\ cw[p] = t
AbsSlots == [i \in 1..(w - r) |-> [id |-> own[r + i], ready |-> Ready(r + i - 1)]]
Abs == INSTANCE RingBuffer WITH slots <- AbsSlots, cap <- Cap
Refines == [][Abs!Next]_<<AbsSlots, Cap>>
PoppedInOrder == popped = SubSeq(own, 1, Len(popped))
Bounded == w - r <= Cap
\* a push gives up only at a moment the queue is full: the failing step comes right after such a moment (w has not moved)
NoSpuriousFail == \A p \in Producers : ppc[p] = "fail" => w - r >= Cap
WasFull == \A p \in Producers : ppc[p] = "fail" => (w - r >= Cap)
=============================================================================
