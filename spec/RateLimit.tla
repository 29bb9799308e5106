----------------------------- MODULE RateLimit -----------------------------
(* The blocking-commit queue with its rate limits.  Two dimensions, the identifier a command belongs to and the command's
   name, each with its own threshold; a key over its threshold within the sliding window is blocked for a fixed time.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

VARIABLES now,
          cfg,      \* [win, idt, cmt, dur]
          charges,  \* function from tracked <<dim, key>> to Seq([t, us])
          until,    \* function from tracked <<dim, key>> to the time its block ends (0: never blocked)
          fifo      \* Seq([id, ident, cmd]): commands waiting
rvars == <<now, cfg, charges, until, fifo>>

Tracked == DOMAIN charges
Threshold(d) == IF d = "id" THEN cfg.idt ELSE cfg.cmt
BlockedKey(d, k) == k # "" /\ <<d, k>> \in Tracked /\ until[<<d, k>>] > now
Blocked(ident, cmd) == BlockedKey("id", ident) \/ BlockedKey("cmd", cmd)

(* A charge counts for that part of it that lies within the window. *)
Min2(a, b) == IF a < b THEN a ELSE b
InWindow(c) == now - c.t < cfg.win
Credit(c) == Min2(c.us, cfg.win - (now - c.t))
Total(s) == FoldLeft(LAMBDA acc, c : acc + Credit(c), 0, s)

RInit == now = 0 /\ cfg = [win |-> 1, idt |-> 0, cmt |-> 0, dur |-> 1] /\ charges = <<>> /\ until = <<>> /\ fifo = <<>>

\* the new state of one key after charging it; f = [ch, un]
Charged(f, d, k, us) ==
    IF k = "" \/ Threshold(d) = 0 THEN f
    ELSE LET key == <<d, k>>
             old == IF key \in DOMAIN f.ch THEN f.ch[key] ELSE <<>>
             oldUntil == IF key \in DOMAIN f.un THEN f.un[key] ELSE 0
         IN IF oldUntil > now THEN f    \* a running block is neither extended nor added to
            ELSE LET kept == SelectSeq(Append(old, [t |-> now, us |-> us]), InWindow)
                     over == Total(kept) > Threshold(d)
                 IN [ch |-> (key :> kept) @@ f.ch, un |-> (key :> (IF over THEN now + cfg.dur ELSE oldUntil)) @@ f.un]
Record(ident, cmd, us) ==
    LET f1 == Charged([ch |-> charges, un |-> until], "id", ident, us)
        f2 == Charged(f1, "cmd", cmd, us)
    IN charges' = f2.ch /\ until' = f2.un /\ UNCHANGED <<now, cfg, fifo>>

PushOK(id, ident, cmd) == ~Blocked(ident, cmd) /\ fifo' = Append(fifo, [id |-> id, ident |-> ident, cmd |-> cmd]) /\ UNCHANGED <<now, cfg, charges, until>>
PushRefused(ident, cmd) == Blocked(ident, cmd) /\ UNCHANGED rvars
\* A command whose key was blocked meanwhile comes out already answered with the refusal.
Get(id, refused) == fifo # <<>> /\ Head(fifo).id = id /\ refused = Blocked(Head(fifo).ident, Head(fifo).cmd) /\ fifo' = Tail(fifo) /\ UNCHANGED <<now, cfg, charges, until>>
GetNone == fifo = <<>> /\ UNCHANGED rvars
ClearLimits == charges' = <<>> /\ until' = <<>> /\ UNCHANGED <<now, cfg, fifo>>
ClearAll == charges' = <<>> /\ until' = <<>> /\ fifo' = <<>> /\ UNCHANGED <<now, cfg>>
SetCfg(w, v) == cfg' = [cfg EXCEPT ![w] = v] /\ UNCHANGED <<now, charges, until, fifo>>
Advance(t) == t >= now /\ now' = t /\ UNCHANGED <<cfg, charges, until, fifo>>
BlockedKeys(d) == {k[2] : k \in {x \in Tracked : x[1] = d /\ until[x] > now}}
=============================================================================
