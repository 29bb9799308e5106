----------------------------- MODULE Restricted -----------------------------
(* A handle under restrictions, and a replica that replays what the handle replicates.  Cells of a replicated table "a" and
   of a table "l" only ever written locally.  MISTAKE: "none", "noopText" (leaving or entering the mode is not replicated),
   "original" (a replaced INSERT is replicated as it was given), "both" (original and replacement run), "local" (local writes
   inside a transaction), "white" (a whitelisted handle may write), "skip" (ordinary writes run in noop mode).                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, MISTAKE
VARIABLES a, loc, in, ta, q, noop, white, rewrite, log, ops, seen
vars == <<a, loc, in, ta, q, noop, white, rewrite, log, ops, seen>>
Init == a = 0 /\ loc = 0 /\ in = FALSE /\ ta = 0 /\ q = <<>> /\ noop = FALSE /\ white = FALSE /\ rewrite = FALSE /\ log = <<>> /\ ops = 0 /\ seen = <<>>
Step == ops < MaxOps /\ ops' = ops + 1
\* statements: "upd" adds 1 (nothing in noop mode), "ins" adds 10, "rep" (its replacement) adds 100
Eff(v, s, n) == IF s = "upd" THEN (IF n THEN v ELSE v + 1) ELSE IF s = "ins" THEN v + 10 ELSE IF s = "rep" THEN v + 100 ELSE v
Begin == Step /\ ~in /\ in' = TRUE /\ ta' = a /\ q' = <<>> /\ UNCHANGED <<a, loc, noop, white, rewrite, log, seen>>
Write(s, idem) ==
    /\ Step /\ in
    /\ IF (white /\ MISTAKE # "white") \/ (noop /\ ~idem /\ MISTAKE # "skip") THEN UNCHANGED <<ta, q, seen>>
       ELSE LET runs == IF rewrite /\ s = "ins" THEN (IF MISTAKE = "both" THEN <<"ins", "rep">> ELSE <<"rep">>) ELSE <<s>>
                text == IF rewrite /\ s = "ins" THEN (IF MISTAKE = "original" THEN <<"ins">> ELSE <<"rep">>) ELSE <<s>> IN
            /\ ta' = (IF Len(runs) = 2 THEN Eff(Eff(ta, runs[1], noop), runs[2], noop) ELSE Eff(ta, runs[1], noop))
            /\ q' = q \o text
            /\ seen' = Append(seen, [white |-> white, skip |-> noop /\ ~idem])
    /\ UNCHANGED <<a, loc, in, noop, white, rewrite, log>>
Local == /\ Step /\ (~in \/ MISTAKE = "local") /\ loc' = loc + 1
         /\ q' = (IF in THEN Append(q, "local") ELSE q)
         /\ UNCHANGED <<a, in, ta, noop, white, rewrite, log, seen>>
Mode(b) == /\ Step /\ in /\ noop # b /\ noop' = b /\ q' = (IF MISTAKE = "noopText" THEN q ELSE Append(q, IF b THEN "on" ELSE "off"))
           /\ UNCHANGED <<a, loc, in, ta, white, rewrite, log, seen>>
Set == /\ Step /\ ((white' = ~white /\ UNCHANGED rewrite) \/ (rewrite' = ~rewrite /\ UNCHANGED white))
       /\ UNCHANGED <<a, loc, in, ta, q, noop, log, seen>>
\* the mode is for one transaction: whoever set it takes it off before the end (its caller does)
Commit == Step /\ in /\ ~noop /\ in' = FALSE /\ a' = ta /\ log' = Append(log, q) /\ q' = <<>> /\ UNCHANGED <<loc, ta, noop, white, rewrite, seen>>
Rollback == Step /\ in /\ in' = FALSE /\ q' = <<>> /\ ta' = a /\ noop' = FALSE /\ UNCHANGED <<a, loc, white, rewrite, log, seen>>
Next == Begin \/ Commit \/ Rollback \/ Local \/ Set \/ (\E b \in BOOLEAN : Mode(b)) \/ \E s \in {"upd", "ins"}, i \in BOOLEAN : Write(s, i)
Spec == Init /\ [][Next]_vars
\* ---- the replica
RECURSIVE One(_, _, _)
One(v, n, ss) == IF ss = <<>> THEN v ELSE One(Eff(v, Head(ss), n), IF Head(ss) = "on" THEN TRUE ELSE IF Head(ss) = "off" THEN FALSE ELSE n, Tail(ss))
RECURSIVE Play(_, _)
Play(v, ls) == IF ls = <<>> THEN v ELSE Play(One(v, FALSE, Head(ls)), Tail(ls))
SameThere == Play(0, log) = a
NoLocal == \A i \in DOMAIN log : \A k \in DOMAIN log[i] : log[i][k] # "local"
Refused == \A i \in DOMAIN seen : ~seen[i].white /\ ~seen[i].skip
NotOriginal == [][rewrite /\ q' # q => (\A k \in DOMAIN q' : k > Len(q) => q'[k] # "ins") /\ ta' - ta # 110]_vars
=============================================================================
