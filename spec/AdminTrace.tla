----------------------------- MODULE AdminTrace -----------------------------
(* A recorded run of real servers against Admin.tla: control commands from several places, commands, crashes and reports of them.  *)
EXTENDS TraceLib
VARIABLES tr, l,
          list,   \* node -> reports: <<line, set of <<key, value>>>>
          up, conf
tvars == <<tr, l, list, up, conf>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Pairs(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}
Of(L, line) == {r[2] : r \in {x \in L : x[1] = line}}
Would(L, line, vals) == LET S == Of(L, line) IN Cardinality(S) > 1 \/ \E r \in S : r \subseteq vals
Open == {"SuppressCommandPort", "ClearCommandPort", "GetCommitHash", "CRASH_COMMAND"}
Allowed == Ev.from \in {"local", "private"} \/ Ev.line \in Open
Reports(s) == {<<s[k][1], Pairs(s[k][2])>> : k \in DOMAIN s}
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ list = <<>> /\ up = {} /\ conf = <<>>
Key(x) == <<Ev.node, x>>
TraceNext ==
    \/ Is("begin") /\ up' = Range0(Ev.nodes) /\ list' = [n \in up' |-> {}] /\ conf' = <<>>
    \* a control command: allowed or refused by where it came from
    \/ Is("ctl") /\ (Ev.reply = "401 Unauthorized" <=> ~Allowed)
                 \* what it found is what was last set by somebody allowed to
                 /\ (Allowed => \A k \in DOMAIN Ev.was : Get(conf, Key(Ev.was[k][1]), Ev.was[k][2]) = Ev.was[k][2])
                 /\ (~Allowed => Ev.was = <<>>)
                 /\ conf' = (IF Allowed THEN [x \in DOMAIN conf \cup {Key(Ev.set[k][1]) : k \in DOMAIN Ev.set} |->
                                                IF \E k \in DOMAIN Ev.set : Key(Ev.set[k][1]) = x THEN Ev.set[CHOOSE k \in DOMAIN Ev.set : Key(Ev.set[k][1]) = x][2] ELSE conf[x]] ELSE conf)
                 /\ list' = (IF Allowed /\ Ev.line = "ClearCrashCommands" THEN [list EXCEPT ![Ev.node] = {}]
                             ELSE IF Ev.line = "CRASH_COMMAND" /\ Ev.about # <<>> THEN [list EXCEPT ![Ev.node] = @ \cup {<<Ev.about[1], Pairs(Ev.about[2])>>}] ELSE list)
                 /\ UNCHANGED up
    \* seen from outside afterwards
    \/ Is("sees") /\ Ev.ok /\ UNCHANGED <<list, up, conf>>
    \/ Is("value") /\ Get(conf, Key(Ev.key), Ev.is) = Ev.is /\ conf' = Put(conf, Key(Ev.key), Ev.is) /\ UNCHANGED <<list, up>>
    \* a command: refused without being run exactly if it is known to crash
    \/ Is("cmd") /\ (IF Would(list[Ev.node], Ev.line, Pairs(Ev.params)) THEN Ev.cls = "refused" /\ ~Ev.ran ELSE Ev.cls = "ok" /\ Ev.ran) /\ UNCHANGED <<list, up, conf>>
    \* it crashes the node; everybody that is up is told
    \/ Is("die") /\ ~Would(list[Ev.node], Ev.line, Pairs(Ev.params)) /\ up' = up \ {Ev.node}
                 /\ list' = [n \in DOMAIN list |-> IF n = Ev.node THEN {} ELSE IF n \in up THEN list[n] \cup {<<Ev.line, Pairs(Ev.params)>>} ELSE list[n]]
                 /\ UNCHANGED conf
    \* back: told by all that it meets, and may tell them what it has just heard from others
    \/ Is("back") /\ up' = up \cup {Ev.node} /\ list' = [q \in DOMAIN list |-> Reports(Ev.lists[q])]
                  /\ (\A o \in up : list[o] \subseteq list'[o] /\ list'[o] \subseteq UNION {list[m] : m \in up})
                  /\ list'[Ev.node] = UNION {list[m] : m \in up}
                  /\ conf' = [x \in {k \in DOMAIN conf : k[1] # Ev.node} |-> conf[x]]
    \* the list as shown
    \/ Is("list") /\ Ev.total = Cardinality(list[Ev.node]) /\ Reports(Ev.list) = list[Ev.node] /\ UNCHANGED <<list, up, conf>>
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
