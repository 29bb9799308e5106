---------------------------- MODULE ClusterTrace ----------------------------
(* A cluster of real SQLiteNode objects, recorded: which messages each node sent and was given (in that order, one at a
   time), its changes of state, its commits, who is logged in with it, and what an operator did.  The specification keeps for
   every node what it can know about its peers (vw) and what it has committed (nd), and accepts an event only if the rules
   of the cluster allow it in that state.
   Rules: which groups of rules are enforced (a property's check names its own).                                        *)
EXTENDS TraceLib
CONSTANT Rules
VARIABLES tr, l, g, nd, vw
tvars == <<tr, l, g, nd, vw>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
On(r) == r \in Rules

Leadish == {"STANDINGUP", "LEADING", "STANDINGDOWN"}
Change == [SEARCHING |-> {"SYNCHRONIZING", "WAITING", "LEADING"}, SYNCHRONIZING |-> {"SEARCHING", "WAITING"},
           WAITING |-> {"SEARCHING", "STANDINGUP", "SUBSCRIBING"}, STANDINGUP |-> {"SEARCHING", "LEADING"},
           LEADING |-> {"SEARCHING", "STANDINGDOWN"}, STANDINGDOWN |-> {"SEARCHING"},
           SUBSCRIBING |-> {"SEARCHING", "FOLLOWING"}, FOLLOWING |-> {"SEARCHING"}]

Nodes == 1..g.N
Peers(n) == Nodes \ {n}
Full(n) == {p \in Peers(n) : ~vw[n][p].perma}
InFull(n) == {p \in Full(n) : vw[n][p].in}
Good(n) == {p \in InFull(n) : ~vw[n][p].fk}
Hash(n, k) == IF k \in DOMAIN nd[n].alt THEN nd[n].alt[k] ELSE g.ledger[k]
MinOf(a, b) == IF a < b THEN a ELSE b
Agree(a, b) == \A k \in DOMAIN nd[a].alt \cup DOMAIN nd[b].alt : k <= MinOf(nd[a].cnt, nd[b].cnt) => Hash(a, k) = Hash(b, k)
OnceFull == {m \in Nodes : g.conf0[m] > 0}
Cnt(S) == Cardinality(S)
Majority(S) == 2 * Cnt(S) > Cnt(OnceFull)

NoView(perma) == [in |-> FALSE, fk |-> FALSE, st |-> "SEARCHING", pr |-> 0, cc |-> 0, perma |-> perma, resp |-> "none",
                  sub |-> FALSE, was |-> FALSE, appc |-> -1, mm |-> FALSE, incc |-> 0, ship |-> 0, told |-> -9, cut |-> FALSE]
Forget(v) == [v EXCEPT !.in = FALSE, !.fk = FALSE, !.st = "SEARCHING", !.pr = 0, !.resp = "none", !.sub = FALSE]
NewNode == [up |-> FALSE, known |-> FALSE, st |-> "SEARCHING", pr |-> -1, conf |-> 0, sc |-> 1, cnt |-> 0, alt |-> <<>>,
            got |-> {}, lead |-> 0, snap |-> <<>>, pend |-> 0, mark |-> 0, fkd |-> FALSE, died |-> FALSE, sp |-> <<>>, left |-> -1]

----------------------------------------------------------------------------
Begin == /\ Is("begin")
         /\ g' = [N |-> Ev.N, strict |-> Ev.strict, forks |-> Ev.forks, conf0 |-> Ev.conf, moved |-> FALSE, ledger |-> <<>>]
         /\ nd' = [n \in 1..Ev.N |-> NewNode]
         /\ vw' = [n \in 1..Ev.N |-> [p \in 1..Ev.N |-> NoView(Ev.conf[p] = 0)]]

\* a node comes up with exactly the history it went down with
Start ==
    /\ Is("start")
    /\ LET n == Ev.n
           h == Ev.hist
           led == IF Len(h) > Len(g.ledger) THEN g.ledger \o SubSeq(h, Len(g.ledger) + 1, Len(h)) ELSE g.ledger
           ds == {k \in 1..Len(h) : led[k] # h[k]}
       IN /\ IF nd[n].known
             THEN /\ On("order") => (Len(h) = nd[n].cnt /\ \A k \in 1..Len(h) : h[k] = Hash(n, k))
             ELSE TRUE
          /\ g' = [g EXCEPT !.ledger = led]
          /\ nd' = [nd EXCEPT ![n] = [NewNode EXCEPT !.up = TRUE, !.known = TRUE, !.conf = Ev.conf, !.cnt = Len(h),
                                                     !.alt = [k \in ds |-> h[k]], !.mark = Len(h)]]
          /\ vw' = [vw EXCEPT ![n] = [p \in Nodes |-> NoView(g.conf0[p] = 0)]]

\* most full nodes have, or are being sent, everything n has
Held(n) == Majority({p \in OnceFull : p = n \/ nd[p].cnt >= nd[n].cnt \/ (vw[n][p].sub /\ ~vw[n][p].cut /\ vw[n][p].ship >= nd[n].cnt)})
\* Everything a leader committed has been handed to the followers subscribed to it when it leaves (S: who was subscribed).
Stop ==
    /\ Is("stop")
    /\ LET n == Ev.n
       IN /\ (On("ship") /\ Ev.how = "graceful") =>
               \A p \in Peers(n) : (vw[n][p].sub /\ ~vw[n][p].cut /\ nd[n].left >= 0) => vw[n][p].ship >= nd[n].left
          /\ nd' = [nd EXCEPT ![n].up = FALSE]
          /\ g' = [g EXCEPT !.strict = @ /\ IF Ev.how = "graceful" THEN Held(n) ELSE \A q \in Nodes : nd[q].cnt <= nd[n].cnt]
          /\ vw' = [m \in Nodes |-> [vw[m] EXCEPT ![n].cut = TRUE]]

\* the connection between two nodes breaks without either of them having done it
Cut == /\ Is("cut")
       /\ vw' = [vw EXCEPT ![Ev.n][Ev.p].cut = TRUE, ![Ev.p][Ev.n].cut = TRUE]
       \* (what was on its way is lost)
       /\ g' = [g EXCEPT !.strict = @ /\ nd[Ev.n].cnt = nd[Ev.p].cnt]
       /\ UNCHANGED nd

----------------------------------------------------------------------------
(* sending *)
AnyLeader(n, but) == \E q \in Peers(n) \ {but} : ~vw[n][q].fk /\ vw[n][q].in /\ vw[n][q].st \in Leadish

TxState(n, p) ==
    /\ On("sane") => (Ev.scc <= nd[n].sc)
    /\ LET leaves == Ev.st \notin {"LEADING", "STANDINGDOWN"}
       IN /\ (On("ship") /\ leaves /\ vw[n][p].sub) => vw[n][p].ship >= Ev.cc
          \* a commit seen only after the node had left leading was made before it left
          /\ (On("late") /\ leaves /\ nd[n].pend > 0) => nd[n].pend <= Ev.cc
          /\ vw' = [vw EXCEPT ![n][p].told = Ev.pr, ![n][p].sub = IF leaves THEN FALSE ELSE @]
          /\ nd' = [nd EXCEPT ![n].pend = IF leaves THEN 0 ELSE @]
TxResponse(n, p) ==
    /\ (On("vote") /\ Ev.resp = "approve") =>
          /\ ~AnyLeader(n, p)
          /\ nd[n].st \notin {"LEADING", "STANDINGDOWN"}
          /\ ~vw[n][p].perma
    \* (what it had when it said so)
    /\ vw' = [vw EXCEPT ![p][n].appc = IF Ev.resp = "approve" THEN nd[n].cnt ELSE @]
    /\ UNCHANGED nd
TxTransaction(n, p) ==
    \* (a peer told that its history differs may be sent some before it hears of it)
    /\ On("ship") => (vw[n][p].mm \/ ((vw[n][p].sub \/ vw[n][p].was) /\ Ev.num = vw[n][p].ship + 1))
    /\ On("order") => (Ev.num <= nd[n].cnt /\ Hash(n, Ev.num) = Ev.h)
    /\ On("fork") => ~vw[n][p].fk
    /\ vw' = [vw EXCEPT ![n][p].ship = Ev.num]
    /\ UNCHANGED nd
Listed(n, list) == \A k \in DOMAIN list : list[k].num <= nd[n].cnt /\ list[k].h = Hash(n, list[k].num)
Contig(list) == \A k \in 1..(Len(list) - 1) : list[k + 1].num = list[k].num + 1
TxSync(n, p) ==
    /\ On("order") => (Listed(n, Ev.list) /\ Contig(Ev.list))
    /\ (On("fork") /\ Len(Ev.list) > 0) => ~vw[n][p].fk
    /\ IF Ev.t = "SUBSCRIPTION_APPROVED" /\ Ev.mm THEN vw' = [vw EXCEPT ![n][p].mm = TRUE]
       ELSE IF Ev.t = "SUBSCRIPTION_APPROVED"
       THEN vw' = [vw EXCEPT ![n][p].sub = TRUE, ![n][p].mm = FALSE, ![n][p].ship = IF Len(Ev.list) > 0 THEN Ev.list[Len(Ev.list)].num ELSE vw[n][p].cc,
                             ![n][p].cut = FALSE]
       ELSE UNCHANGED vw
    /\ UNCHANGED nd
Tx == /\ Is("tx")
      /\ LET n == Ev.n
             p == Ev.p
         IN CASE Ev.t = "STATE" -> TxState(n, p)
              [] Ev.t = "LOGIN" -> vw' = [vw EXCEPT ![n][p].told = Ev.pr, ![n][p].cut = FALSE] /\ UNCHANGED nd
              [] Ev.t = "STANDUP_RESPONSE" -> TxResponse(n, p)
              [] Ev.t = "TRANSACTION" -> TxTransaction(n, p)
              [] Ev.t \in {"SYNCHRONIZE_RESPONSE", "SUBSCRIPTION_APPROVED"} -> TxSync(n, p)
              [] Ev.t = "SUBSCRIBE" -> nd' = [nd EXCEPT ![n].lead = p] /\ UNCHANGED vw
              \* closes the connection itself
              [] Ev.t = "RECONNECT" -> vw' = [vw EXCEPT ![n][p].cut = TRUE, ![p][n].cut = TRUE] /\ UNCHANGED nd
              [] OTHER -> UNCHANGED <<nd, vw>>
      /\ g' = IF Ev.t = "RECONNECT" THEN [g EXCEPT !.strict = FALSE] ELSE g

----------------------------------------------------------------------------
(* receiving: what a node knows afterwards *)
Rx == /\ Is("rx")
      /\ LET n == Ev.n
             p == Ev.p
             v == [vw[n][p] EXCEPT !.cc = Ev.cc]
         IN IF vw[n][p].fk THEN UNCHANGED <<nd, vw>>
            \* (on a new connection: it may take over from one that broke)
            ELSE CASE Ev.t = "LOGIN" -> vw' = [vw EXCEPT ![n][p] = [v EXCEPT !.sub = FALSE, !.mm = TRUE]] /\ UNCHANGED nd
                   [] Ev.t = "STATE" /\ v.in ->
                       /\ vw' = [vw EXCEPT ![n][p] = [v EXCEPT !.st = Ev.st, !.pr = Ev.pr, !.perma = Ev.pr = 0,
                                                               !.sub = IF Ev.st = "SEARCHING" /\ Ev.st # v.st THEN FALSE ELSE @,
                                                               !.was = @ \/ v.sub]]
                       /\ UNCHANGED nd
                   [] Ev.t = "STANDUP_RESPONSE" /\ v.in /\ nd[n].st = "STANDINGUP" /\ Ev.scc = nd[n].sc /\ Ev.resp # "" ->
                       vw' = [vw EXCEPT ![n][p] = [v EXCEPT !.resp = Ev.resp]] /\ UNCHANGED nd
                   [] Ev.t = "TRANSACTION" /\ v.in /\ nd[n].lead = p ->
                       vw' = [vw EXCEPT ![n][p] = v] /\ nd' = [nd EXCEPT ![n].got = @ \cup {<<Ev.num, Ev.h>>}]
                   [] Ev.t \in {"SYNCHRONIZE_RESPONSE", "SUBSCRIPTION_APPROVED"} /\ v.in ->
                       /\ vw' = [vw EXCEPT ![n][p] = v]
                       /\ nd' = [nd EXCEPT ![n].got = @ \cup {<<Ev.list[k].num, Ev.list[k].h>> : k \in DOMAIN Ev.list}]
                   [] OTHER -> vw' = [vw EXCEPT ![n][p] = v] /\ UNCHANGED nd
      /\ UNCHANGED g

\* logged in: with a peer whose last transaction we have too, it must be the same one
In == /\ Is("in")
      /\ LET n == Ev.n
             p == Ev.p
         IN /\ (On("fork") /\ Ev.cc > 0 /\ Ev.cc <= Ev.lc) => (Ev.cc <= nd[n].cnt /\ Hash(n, Ev.cc) = Ev.ch)
            /\ vw' = [vw EXCEPT ![n][p] = [@ EXCEPT !.in = TRUE, !.st = Ev.st, !.pr = Ev.pr, !.perma = Ev.pr = 0, !.cc = Ev.cc,
                                                    !.resp = "none", !.sub = FALSE, !.mm = FALSE, !.incc = nd[p].cnt]]
      /\ UNCHANGED <<g, nd>>
Out == /\ Is("out")
       /\ LET n == Ev.n
              p == Ev.p
          IN /\ vw' = [vw EXCEPT ![n][p] = IF nd[n].left >= 0 THEN [Forget(@) EXCEPT !.sub = vw[n][p].sub] ELSE Forget(@)]
             \* (a node may drop its connections itself, with what was on its way)
             /\ g' = [g EXCEPT !.strict = @ /\ (nd[p].up => nd[p].cnt = nd[n].cnt)]
       /\ UNCHANGED nd
\* only peers whose history differs are called forked
Forked ==
    /\ Is("fk")
    /\ LET n == Ev.n
           p == Ev.p
       IN /\ (On("fork") /\ Ev.v) => ~Agree(n, p)
          /\ vw' = [vw EXCEPT ![n][p] = IF ~Ev.v THEN Forget(@)
                                        ELSE IF @.in \/ ~Has(Ev.login, "pr") THEN [@ EXCEPT !.fk = TRUE]
                                        ELSE [@ EXCEPT !.fk = TRUE, !.st = Ev.login.st, !.pr = Ev.login.pr, !.perma = Ev.login.pr = 0]]
          /\ nd' = [nd EXCEPT ![n].fkd = Ev.v]
    /\ UNCHANGED g
Quorum(n) == Cnt(Full(n)) + (IF nd[n].conf # 0 THEN 1 ELSE 0)
ForkedFull(n) == {p \in Full(n) : vw[n][p].fk}
\* only a node forked from half the cluster gives up (the last fork it found may not have been recorded)
Die == /\ Is("die")
       /\ On("fork") => 2 * (Cnt(ForkedFull(Ev.n)) + 1) >= Quorum(Ev.n)
       /\ nd' = [nd EXCEPT ![Ev.n].up = FALSE, ![Ev.n].died = TRUE]
       /\ g' = [g EXCEPT !.strict = FALSE] /\ vw' = [m \in Nodes |-> [vw[m] EXCEPT ![Ev.n].cut = TRUE]]

----------------------------------------------------------------------------
(* changes of state *)
StandUp(n) ==
    /\ On("elect") => (Ev.pr > 0 /\ \A p \in Good(n) : vw[n][p].cc <= nd[n].cnt)
    /\ On("vote") => (\A p \in Good(n) : vw[n][p].st \notin Leadish)
Lead(n) ==
    /\ On("elect") => ((g.N > 1 => Ev.pr > 1) /\ \A p \in Good(n) : vw[n][p].cc <= nd[n].cnt)
    /\ On("vote") => (/\ \A p \in InFull(n) : vw[n][p].resp # "deny"
                      /\ 2 * Cnt(InFull(n)) >= Cnt(Full(n))
                      /\ 2 * Cnt({p \in InFull(n) : vw[n][p].resp = "approve"}) >= Cnt(Full(n)))
    /\ (On("fork") /\ ~g.moved) => (\A p \in InFull(n) : (vw[n][p].resp = "approve" /\ vw[n][p].incc = nd[p].cnt) => Agree(n, p))
State ==
    /\ Is("state")
    /\ LET n == Ev.n
           leaves == nd[n].st \in {"LEADING", "STANDINGDOWN"} /\ Ev.to \notin {"LEADING", "STANDINGDOWN"}
       IN /\ On("vote") => (Ev.from = nd[n].st /\ Ev.to \in Change[Ev.from])
          /\ (Ev.to = "STANDINGUP") => StandUp(n)
          /\ (Ev.to = "LEADING") => Lead(n)
          /\ (On("fork") /\ Ev.to = "FOLLOWING" /\ nd[n].lead > 0) => Agree(n, nd[n].lead)
          /\ nd' = [nd EXCEPT ![n] = [@ EXCEPT !.st = Ev.to, !.sc = @ + 1, !.pr = Ev.pr,
                                               \* what the others had when they approved, or have
                                               !.snap = IF Ev.to = "LEADING" THEN [m \in Nodes |-> IF vw[n][m].resp = "approve" THEN vw[n][m].appc ELSE nd[m].cnt] ELSE @,
                                               !.left = IF leaves THEN nd[n].cnt ELSE IF Ev.to = "SEARCHING" THEN @ ELSE -1]]
          /\ vw' = [vw EXCEPT ![n] = [p \in Nodes |-> [@[p] EXCEPT !.resp = IF Ev.to = "STANDINGUP" THEN "none" ELSE @,
                                                                  !.sub = @ /\ Ev.from \in {"LEADING", "STANDINGDOWN"}]]]
    /\ UNCHANGED g

----------------------------------------------------------------------------
Commit ==
    /\ Is("com")
    /\ LET n == Ev.n
           k == Ev.num
           h == Ev.h
           given == <<k, h>> \in nd[n].got
           leading == nd[n].st \in {"LEADING", "STANDINGDOWN"}
           others == {m \in Nodes : nd[m].known /\ nd[m].cnt >= k /\ Hash(m, k) # h}
       IN /\ On("order") => k = nd[n].cnt + 1
          \* either it was given to the node or the node leads; if it has just left, it must have been before it left
          /\ On("late") => (given \/ leading \/ nd[n].left >= 0)
          \* a leader never replaces a transaction most full nodes had when it was elected (a node that lags far may still be brought up to date by
          \* one that has forked, and so fork itself), and nobody replaces any while all nodes part in good order
          /\ (On("order") /\ ~g.forks /\ ~g.moved /\ ~given /\ nd[n].snap # <<>>) =>
                (\A h2 \in {Hash(m, k) : m \in others} : ~Majority({m \in others \cap OnceFull : Hash(m, k) = h2 /\ nd[n].snap[m] >= k}))
          /\ (On("order") /\ ~g.forks /\ ~g.moved /\ g.strict) => others = {}
          /\ g' = IF k = Len(g.ledger) + 1 THEN [g EXCEPT !.ledger = Append(@, h)] ELSE g
          /\ nd' = [nd EXCEPT ![n] = [@ EXCEPT !.cnt = k, !.got = {x \in @ : x[1] > k},
                                               !.alt = IF k <= Len(g.ledger) /\ g.ledger[k] # h THEN (k :> h) @@ @ ELSE @,
                                               !.pend = IF given \/ leading THEN @ ELSE k]]
    /\ UNCHANGED vw

Wr == Is("wr") /\ UNCHANGED <<g, nd, vw>>
\* after a node has had its turn
Upd ==
    /\ Is("upd")
    /\ LET n == Ev.n
       IN /\ On("sane") => (Ev.st = nd[n].st)
          /\ (Ev.st = "LEADING") =>
               /\ On("vote") => (\A p \in Good(n) : vw[n][p].st # "LEADING")
               /\ (On("vote") /\ ~g.moved) => 2 * Cnt(InFull(n)) + 1 >= Cnt(Full(n))
               /\ On("elect") => (/\ g.N > 1 => Ev.pr > 1
                                  /\ \A p \in Good(n) : vw[n][p].st = "WAITING" => (vw[n][p].pr < Ev.pr /\ vw[n][p].cc <= Ev.cc))
               \* what was committed before its previous turn has been sent
               /\ On("ship") => (\A p \in Peers(n) : (vw[n][p].sub /\ ~vw[n][p].cut) => vw[n][p].ship >= nd[n].mark)
          /\ (On("fork") /\ nd[n].fkd) => (ForkedFull(n) = {} \/ 2 * Cnt(ForkedFull(n)) < Quorum(n))
          /\ nd' = [nd EXCEPT ![n].pr = Ev.pr, ![n].mark = nd[n].cnt, ![n].fkd = FALSE]
          \* (it has seen by now what it was given)
          /\ vw' = [vw EXCEPT ![n] = [p \in Nodes |-> [@[p] EXCEPT !.was = FALSE]]]
    /\ UNCHANGED g

----------------------------------------------------------------------------
(* the priority is changed *)
Sp == /\ Is("sp")
      /\ nd' = [nd EXCEPT ![Ev.n] = [@ EXCEPT !.sp = <<Ev.v, Ev.pr, Ev.conf>>, !.conf = Ev.conf]]
      /\ UNCHANGED <<g, vw>>
Spr ==
    /\ Is("spr")
    /\ LET n == Ev.n
           v == Ev.v
           pr == nd[n].sp[2]
           conf == nd[n].sp[3]
           want == CASE v < 0 \/ v = 1 -> 400
                     [] v > 0 /\ (\E p \in Peers(n) : vw[n][p].in /\ vw[n][p].pr = v) -> 409
                     [] v = 0 /\ conf > 0 /\ Cnt(Full(n)) < ((g.N + 1) \div 2) -> 409
                     [] OTHER -> 200
       IN /\ On("prio") =>
               /\ Ev.res = want
               /\ Ev.conf = IF want = 200 THEN v ELSE conf
               /\ Ev.pr = IF want = 200 /\ pr \notin {-1, 1} THEN v ELSE pr
               \* everyone it is connected to hears of it at once
               /\ (Ev.pr # pr) => \A p \in Peers(n) : (vw[n][p].in /\ ~vw[n][p].fk /\ ~vw[n][p].cut) => vw[n][p].told = Ev.pr
          /\ g' = [g EXCEPT !.moved = @ \/ Ev.res = 200]
          /\ nd' = [nd EXCEPT ![n].conf = Ev.conf, ![n].pr = Ev.pr]
    /\ UNCHANGED vw
Other == (Is("ssp") \/ Is("heal")) /\ UNCHANGED <<g, nd, vw>>

----------------------------------------------------------------------------
(* long after everything healed *)
Best(S) == CHOOSE n \in S : \A m \in S : Ev.nodes[m].conf <= Ev.nodes[n].conf
Fin ==
    /\ Is("fin")
    /\ LET M == {n \in Nodes : Ev.nodes[n].main}
           Fu == {n \in Nodes : Ev.nodes[n].conf > 0}
           \* most full nodes live and agree, and none of these counts on too many that never came back
           healthy == /\ Fu # {} /\ 2 * Cnt(M \cap Fu) > Cnt(Fu)
                      /\ \A n \in M : ~nd[n].died /\ 2 * Cnt(Full(n) \cap M) >= Cnt(Full(n))
       IN /\ (On("heal") /\ healthy) =>
               /\ Ev.conv
               /\ Ev.leader = Best(M)
               /\ \A n \in M : /\ Ev.nodes[n].up
                               /\ Ev.nodes[n].st = IF n = Ev.leader THEN "LEADING" ELSE "FOLLOWING"
                               /\ Ev.nodes[n].cnt = Ev.nodes[Ev.leader].cnt
                               /\ Ev.nodes[n].pr = Ev.nodes[n].conf
                               /\ Ev.nodes[n].blocked = 0
                               /\ \A p \in M \ {n} : vw[n][p].in /\ vw[n][p].pr = Ev.nodes[p].conf /\ ~vw[n][p].fk
          /\ (On("order") /\ healthy /\ Ev.conv) => (\A n \in M : Ev.nodes[n].data = Ev.nodes[Ev.leader].data)
          /\ (On("fork") /\ healthy /\ Ev.conv) => (\A n \in Nodes \ M : (Ev.nodes[n].up => Ev.nodes[n].st \notin {"LEADING", "FOLLOWING"}))
    /\ UNCHANGED <<g, nd, vw>>

TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ g = [N |-> 0] /\ nd = <<>> /\ vw = <<>>
TraceNext == \/ Begin \/ Start \/ Stop \/ Cut \/ Tx \/ Rx \/ In \/ Out \/ Forked \/ Die \/ State \/ Commit \/ Wr \/ Upd
             \/ Sp \/ Spr \/ Other \/ Fin
             \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
