---------------------------- MODULE RateLimitMC ----------------------------
(* Exhaustive exploration of RateLimit for a few keys, and behaviours to replay into the code. *)
EXTENDS RateLimit, TLC, Json
CONSTANTS QUEUE, Idents, Cmds, MaxTime, MaxCmds, Us, Depth, EMIT
VARIABLES hist, nextId, everRecorded, lastClear
mvars == <<now, cfg, charges, until, fifo, hist, nextId, everRecorded>>
Log(r) == hist' = IF EMIT THEN Append(hist, r) ELSE hist
\* everRecorded: ghost log of every charge that was accepted, to state the property independently of the bookkeeping.
MRecord(i, c, u) ==
    /\ Record(i, c, u) /\ Log([op |-> "record", ident |-> i, cmd |-> c, us |-> u]) /\ UNCHANGED <<nextId, lastClear>>
    /\ everRecorded' = Append(everRecorded, [t |-> now, i |-> IF BlockedKey("id", i) THEN "" ELSE i, c |-> IF BlockedKey("cmd", c) THEN "" ELSE c, us |-> u])
Next ==
    \/ \E i \in Idents \cup {""}, c \in Cmds, u \in Us : Len(everRecorded) < MaxCmds /\ MRecord(i, c, u)
    \/ \E i \in Idents, c \in Cmds : /\ QUEUE /\ nextId <= MaxCmds /\ nextId' = nextId + 1 /\ (PushOK(nextId, i, c) \/ PushRefused(i, c))
                                     /\ Log([op |-> "push", id |-> nextId, ident |-> i, cmd |-> c]) /\ UNCHANGED <<everRecorded, lastClear>>
    \/ \E id \in 1..MaxCmds, r \in {TRUE, FALSE} : Get(id, r) /\ Log([op |-> "get"]) /\ UNCHANGED <<nextId, everRecorded, lastClear>>
    \/ Tracked # {} /\ ClearLimits /\ Log([op |-> "clearlimits"]) /\ UNCHANGED nextId /\ everRecorded' = <<>> /\ lastClear' = now
    \/ now < MaxTime /\ \E d \in {1, 3} : Advance(now + d) /\ Log([op |-> "advance", dt |-> d]) /\ UNCHANGED <<nextId, everRecorded, lastClear>>
    \/ EMIT /\ \E w \in {"win", "idt", "cmt", "dur"}, v \in {0, 2, 5} : (w = "win" => v <= cfg.win) /\ SetCfg(w, v) /\ Log([op |-> "set", what |-> w, val |-> v]) /\ UNCHANGED <<nextId, everRecorded, lastClear>>
Start == /\ now = 1 /\ cfg \in {[win |-> 4, idt |-> 3, cmt |-> 5, dur |-> 3], [win |-> 3, idt |-> 0, cmt |-> 2, dur |-> 1], [win |-> 5, idt |-> 4, cmt |-> 0, dur |-> 6]}
         /\ charges = <<>> /\ until = <<>> /\ fifo = <<>> /\ nextId = 1 /\ everRecorded = <<>> /\ lastClear = 0
         /\ hist = IF EMIT THEN <<[op |-> "new", cfg |-> cfg]>> ELSE <<>>
Spec == Start /\ [][Next]_<<mvars, lastClear>>

(* The property, stated on the history of charges alone: a key is blocked now iff at some instant at most `dur` ago a charge
   made its windowed total exceed the threshold.                                                                      *)
Sum(S) == FoldSet(LAMBDA k, acc : acc + Min2(everRecorded[k].us, cfg.win - (everRecorded[S.last].t - everRecorded[k].t)), 0, S.ks)
KeyOf(k, d) == IF d = "id" THEN everRecorded[k].i ELSE everRecorded[k].c
TrippedBy(j, d, key) ==
    LET ks == {k \in 1..j : KeyOf(k, d) = key /\ everRecorded[j].t - everRecorded[k].t < cfg.win}
    IN Sum([last |-> j, ks |-> ks]) > Threshold(d)
BlockIsJustified ==
    EMIT \/ \A d \in {"id", "cmd"}, key \in Idents \cup Cmds :
        BlockedKey(d, key) <=> (Threshold(d) # 0 /\ \E j \in DOMAIN everRecorded : KeyOf(j, d) = key /\ TrippedBy(j, d, key) /\ now < everRecorded[j].t + cfg.dur)
EmptyNeverBlocked == ~Blocked("", "")
EmitHist == ~EMIT \/ Len(hist) < Depth \/ PrintT(<<"BEHAVIOUR", ToJson([cfg |-> cfg, hist |-> hist])>>)
=============================================================================
