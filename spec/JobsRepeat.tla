---------------------------- MODULE JobsRepeat ----------------------------
(* When a repeating job is due again, for every rule, time of day and delay in a grid: the promises behind Again of Jobs.tla. *)
EXTENDS Jobs, TLC
CONSTANTS Step, Last
VARIABLES now, sched, rep
M == 120
A(n) == [k |-> "add", n |-> n]
Rules == {[kind |-> k, mods |-> <<>>] : k \in {"HOURLY", "DAILY", "WEEKLY"}}
     \cup {[kind |-> k, mods |-> ms] : k \in {"SCHEDULED", "STARTED", "FINISHED"},
           ms \in {<<A(30 * M)>>, <<A(Hour)>>, <<A(4 * Hour)>>, <<A(14)>>, <<A(2 * Hour), A(-15 * M)>>, <<A(Day), [k |-> "day", n |-> 0]>>, <<A(40 * M), [k |-> "hour", n |-> 0]>>,
                   <<[k |-> "weekday", n |-> 1], A(3 * Hour)>>}}
Init == rep \in Rules /\ sched \in {Day + (k * Step) : k \in 0 .. Last} /\ now \in {sched + (k * Step) : k \in 0 .. Last}
Next == UNCHANGED <<now, sched, rep>>
Spec == Init /\ [][Next]_<<now, sched, rep>>
N == Again(now, sched, sched, rep)
Fixed == \A i \in DOMAIN rep.mods : rep.mods[i].k = "add"
RECURSIVE SumOf(_)
SumOf(ms) == IF ms = <<>> THEN 0 ELSE Head(ms).n + SumOf(Tail(ms))
Canned == /\ rep.kind = "HOURLY" => N > now /\ N % Hour = 0 /\ N <= now + Hour
          /\ rep.kind = "DAILY" => N > now /\ N % Day = 0 /\ N <= now + Day
          /\ rep.kind = "WEEKLY" => N > now /\ N % Day = 0 /\ Weekday(N) = 0 /\ N <= now + 7 * Day
Relative == Fixed => /\ rep.kind = "FINISHED" => N = Sec(now) + SumOf(rep.mods)
                     /\ rep.kind = "STARTED" => N = Sec(sched) + SumOf(rep.mods)
Rhythm == (rep.kind = "SCHEDULED" /\ Fixed) =>
    LET e == SumOf(rep.mods) IN
    /\ (N - Sec(sched)) % e = 0
    /\ N > Sec(sched)
    /\ e < 4 * Hour => N > Sec(now) /\ (N = Sec(sched) + e \/ N <= Sec(now) + e)
    /\ e >= 4 * Hour => N = Sec(sched) + e
=============================================================================
