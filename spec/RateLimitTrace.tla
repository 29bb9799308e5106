--------------------------- MODULE RateLimitTrace ---------------------------
EXTENDS TraceLib, RateLimit
VARIABLES tr, l
tvars == <<tr, l, now, cfg, charges, until, fifo>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
Size == Ev.size = Len(fifo')
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ RInit
TraceNext ==
    \/ Is("begin") /\ now' = Ev.now /\ cfg' = [win |-> Ev.win, idt |-> Ev.idt, cmt |-> Ev.cmt, dur |-> Ev.dur] /\ charges' = <<>> /\ until' = <<>> /\ fifo' = <<>>
    \/ Is("advance") /\ Advance(Ev.now)
    \/ Is("set") /\ Ev.prev = cfg[Ev.what] /\ SetCfg(Ev.what, Ev.val)
    \/ Is("record") /\ Record(Ev.ident, Ev.cmd, Ev.us)
    \/ Is("blocked") /\ Ev.ret = Blocked(Ev.ident, Ev.cmd) /\ UNCHANGED rvars
    \/ Is("push") /\ Ev.ok /\ PushOK(Ev.id, Ev.ident, Ev.cmd) /\ Size
    \/ Is("push") /\ ~Ev.ok /\ Ev.err = "503" /\ PushRefused(Ev.ident, Ev.cmd) /\ Size
    \/ Is("get") /\ Ev.id = 0 /\ GetNone /\ Size
    \/ Is("get") /\ Ev.id # 0 /\ Get(Ev.id, Ev.refused) /\ Ev.resp = (IF Ev.refused THEN "503" ELSE "") /\ Size
    \/ Is("clearlimits") /\ Ev.n = Cardinality(Tracked) /\ ClearLimits /\ Size
    \/ Is("clear") /\ ClearAll /\ Size
    \/ Is("state") /\ Range0(Ev.idents) = BlockedKeys("id") /\ Range0(Ev.cmds) = BlockedKeys("cmd")
                   /\ Ev.winMS = cfg.win \div 1000 /\ Ev.idtMS = cfg.idt \div 1000 /\ Ev.cmtMS = cfg.cmt \div 1000 /\ Ev.durMS = cfg.dur \div 1000 /\ UNCHANGED rvars
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
