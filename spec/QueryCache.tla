----------------------------- MODULE QueryCache -----------------------------
(* A handle's query cache: results of reads kept while inside a transaction, by query text; dropped by whatever may change
   an answer.  Queries: "x" and "y" read a cell, "now" changes by itself, "p" has a parameter.  MISTAKE: "none", or the place
   where the cache is not dropped ("write", "rollback", "commit", "begin"), "vary" (self-changing answers kept), "params"
   (the parameter is not looked at), "outside" (kept outside a transaction).                                             *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MaxV, MISTAKE
VARIABLES db, in, snap, cache, clock, last
vars == <<db, in, snap, cache, clock, last>>
Cells == {"x", "y"}
Queries == {"x", "y", "now", "p"}
Init == db = [c \in Cells |-> 0] /\ in = FALSE /\ snap = db /\ cache = <<>> /\ clock = 0 /\ last = [got |-> 0, want |-> 0]
Now == IF in THEN snap ELSE db
Answer(q, c) == IF q = "now" THEN clock ELSE IF q = "p" THEN Now[c] ELSE Now[q]
Drop(w) == IF MISTAKE = w THEN cache ELSE <<>>
Begin == ~in /\ in' = TRUE /\ snap' = db /\ cache' = Drop("begin") /\ UNCHANGED <<db, clock, last>>
Read(q, c) ==
    LET kept == (in \/ MISTAKE = "outside") /\ q \in DOMAIN cache /\ (q # "p" \/ MISTAKE = "params")
        got == IF kept THEN cache[q] ELSE Answer(q, c) IN
    /\ last' = [got |-> got, want |-> Answer(q, c)]
    /\ cache' = IF (in \/ MISTAKE = "outside") /\ (q # "now" \/ MISTAKE = "vary") /\ (q # "p" \/ MISTAKE = "params") THEN (q :> got) @@ cache ELSE cache
    /\ UNCHANGED <<db, in, snap, clock>>
Write(c) == in /\ snap[c] < MaxV /\ snap' = [snap EXCEPT ![c] = @ + 1] /\ cache' = Drop("write") /\ UNCHANGED <<db, in, clock, last>>
Commit == in /\ in' = FALSE /\ db' = snap /\ cache' = Drop("commit") /\ UNCHANGED <<snap, clock, last>>
Rollback == in /\ in' = FALSE /\ snap' = db /\ cache' = Drop("rollback") /\ UNCHANGED <<db, clock, last>>
\* another handle commits: seen from the next transaction on (or at once outside one)
Other(c) == db[c] < MaxV /\ ~in /\ db' = [db EXCEPT ![c] = @ + 1] /\ UNCHANGED <<in, snap, cache, clock, last>>
Tick == clock < MaxV /\ clock' = clock + 1 /\ UNCHANGED <<db, in, snap, cache, last>>
Next == Begin \/ Commit \/ Rollback \/ Tick \/ (\E q \in Queries, c \in Cells : Read(q, c)) \/ (\E c \in Cells : Write(c) \/ Other(c))
Spec == Init /\ [][Next]_vars
NeverStale == last.got = last.want
\* dropping at the end and at the beginning of a transaction back each other up, so each is asked for by itself
Dropped == ~in => cache = <<>>
=============================================================================
