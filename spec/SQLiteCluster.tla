---------------------------- MODULE SQLiteCluster ----------------------------
(* The cluster as SQLiteNode implements it: every node's state machine, what it believes of its peers, its committed
   transactions, and first-in-first-out connections that may break and be set up again at any time; whole nodes may crash.
   Explored exhaustively for few nodes, transactions and faults; ClusterTrace.tla checks the same rules on recorded runs of
   the real nodes.  A message carries its sender's number of commits, as the real ones do.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Start, Perma, MaxCommits, MaxFaults, MaxChanges, Careful, MISTAKE
VARIABLES st,       \* state of each node
          log,      \* its committed transactions (each transaction is a number of its own)
          sc,       \* how often it changed state
          lead,     \* whom it follows or subscribes to (0: nobody)
          ship,     \* number of the last transaction sent to the followers
          v,        \* v[n][p]: what n believes of p
          ch,       \* ch[n][p]: messages on their way from n to p
          ok,       \* connections that work (both ends may not have noticed that one does not)
          made, faults,
          broke,    \* some connection has been broken or closed, or a node crashed
          bad       \* what went wrong at the moment it happened
vars == <<st, log, sc, lead, ship, v, ch, ok, made, faults, broke, bad>>
Nodes == 1..N
Prio(n) == IF n \in Perma THEN 0 ELSE (N + 1 - n) * 10
FullNodes == Nodes \ Perma
Others(n) == Nodes \ {n}
Leadish == {"STANDINGUP", "LEADING", "STANDINGDOWN"}
NoView == [in |-> FALSE, fk |-> FALSE, st |-> "SEARCHING", cc |-> 0, resp |-> "none", had |-> <<>>, sub |-> FALSE]
FullPeers(n) == Others(n) \ Perma
In(n) == {p \in FullPeers(n) : v[n][p].in}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Fresh(n) == CHOOSE c \in {v[n][p].cc : p \in {q \in Others(n) : v[n][q].in /\ ~v[n][q].fk}} :
               \A p \in Others(n) : v[n][p].in /\ ~v[n][p].fk => v[n][p].cc <= c
Pair(a, b) == {a, b}

\* what the nodes start with: nothing; the first behind the others; the first forked
StartEmpty == [n \in Nodes |-> <<>>]
StartBehind == [n \in Nodes |-> IF n = 1 THEN <<>> ELSE <<101, 102>>]
StartForked == [n \in Nodes |-> IF n = 1 THEN <<101, 102>> ELSE <<101, 103>>]
Init == /\ st = [n \in Nodes |-> "SEARCHING"] /\ log = Start /\ sc = [n \in Nodes |-> 1] /\ lead = [n \in Nodes |-> 0]
        /\ ship = [n \in Nodes |-> 0] /\ v = [n \in Nodes |-> [p \in Nodes |-> NoView]] /\ ch = [n \in Nodes |-> [p \in Nodes |-> <<>>]]
        /\ ok = {} /\ made = 0 /\ faults = 0 /\ broke = FALSE /\ bad = {}

\* sending: only over connections that (as far as the sender knows) are there and work
Send(c, n, p, m) == IF v[n][p].in /\ Pair(n, p) \in ok THEN [c EXCEPT ![n][p] = Append(@, m)] ELSE c
RECURSIVE SendAll(_, _, _, _)
SendAll(c, n, S, m) == IF S = {} THEN c ELSE LET p == CHOOSE x \in S : TRUE IN SendAll(Send(c, n, p, m), n, S \ {p}, m)
StateMsg(n, to, s, k) == [t |-> "STATE", st |-> to, sc |-> s, cc |-> k]
\* transactions a leader has not sent yet, one message each, to those subscribed
RECURSIVE Ship(_, _, _, _)
Ship(c, n, from, lg) == IF from > Len(lg) THEN c
                        ELSE Ship(SendAll(c, n, {p \in Others(n) : v[n][p].sub}, [t |-> "TX", log |-> SubSeq(lg, 1, from), cc |-> from]), n, from + 1, lg)
\* n goes to state "to"; cs: its messages so far; vn: its view so far
Change(n, to, cs, vn) ==
    LET leaves == st[n] \in {"LEADING", "STANDINGDOWN"} /\ to \notin {"LEADING", "STANDINGDOWN"}
        c1 == IF leaves /\ MISTAKE # "noLastShip" THEN Ship(cs, n, ship[n] + 1, log[n]) ELSE cs
    IN /\ st' = [st EXCEPT ![n] = to] /\ sc' = [sc EXCEPT ![n] = @ + 1]
       /\ ship' = [ship EXCEPT ![n] = IF leaves \/ to = "LEADING" THEN Len(log[n]) ELSE @]
       /\ lead' = [lead EXCEPT ![n] = IF to \in {"SUBSCRIBING", "FOLLOWING"} THEN @ ELSE 0]
       /\ ch' = SendAll(c1, n, Others(n), StateMsg(n, to, sc[n] + 1, Len(log[n])))
       /\ v' = [v EXCEPT ![n] = [p \in Nodes |-> [vn[p] EXCEPT !.sub = @ /\ ~leaves, !.resp = IF to = "STANDINGUP" THEN "none" ELSE @]]]
Stay(n, cs, vn) == ch' = cs /\ v' = [v EXCEPT ![n] = vn] /\ UNCHANGED <<st, sc, ship, lead>>

----------------------------------------------------------------------------
(* A node's turn (SQLiteNode::update) *)
Turn(n) ==
    /\ UNCHANGED <<log, ok, made, faults, broke>>
    /\ LET V == v[n]
           good == {p \in Others(n) : V[p].in /\ ~V[p].fk}
           full == {p \in FullPeers(n) : ~V[p].fk}
           in == {p \in full : V[p].in}
           me == Len(log[n])
       IN CASE st[n] = "SEARCHING" ->
                 /\ 2 * Cardinality(In(n)) >= Cardinality(FullPeers(n)) /\ good # {}
                 /\ IF me >= Fresh(n) THEN Change(n, "WAITING", ch, V)
                    ELSE \E p \in good : V[p].cc > me /\ V[p].cc = Fresh(n) /\
                           (LET c == Send(ch, n, p, [t |-> "SYNC", log |-> log[n], cc |-> me])
                            IN /\ st' = [st EXCEPT ![n] = "SYNCHRONIZING"] /\ sc' = [sc EXCEPT ![n] = @ + 1] /\ lead' = [lead EXCEPT ![n] = p]
                               /\ ch' = SendAll(c, n, Others(n), StateMsg(n, "SYNCHRONIZING", sc[n] + 1, me)) /\ UNCHANGED <<ship, v>>)
                 /\ UNCHANGED bad
            [] st[n] = "WAITING" ->
                 LET best == CHOOSE p \in in : \A q \in in : Prio(q) <= Prio(p)
                     leaders == {p \in in : V[p].st \in Leadish}
                     L == {p \in leaders : V[p].st = "LEADING"}
                 IN /\ UNCHANGED bad
                    /\ IF in = {} THEN
                          IF good = {} THEN Change(n, "SEARCHING", ch, V)
                          ELSE Prio(n) > 1 /\ FullPeers(n) = {} /\ Change(n, "STANDINGUP", ch, V)
                       ELSE \/ /\ L # {} /\ Prio(n) < Prio(best)
                               /\ \E p \in L :
                                    LET c == Send(ch, n, p, [t |-> "SUB", log |-> log[n], cc |-> me])
                                    IN /\ st' = [st EXCEPT ![n] = "SUBSCRIBING"] /\ sc' = [sc EXCEPT ![n] = @ + 1] /\ lead' = [lead EXCEPT ![n] = p]
                                       /\ ch' = SendAll(c, n, Others(n), StateMsg(n, "SUBSCRIBING", sc[n] + 1, me)) /\ UNCHANGED <<ship, v>>
                            \/ /\ ~(L # {} /\ Prio(n) < Prio(best))
                               /\ IF \E p \in in : V[p].cc > me THEN Change(n, "SEARCHING", ch, V)
                                  ELSE /\ leaders = {} /\ 2 * Cardinality(in) >= Cardinality(full)
                                       /\ Prio(n) > 1 /\ Prio(n) > Prio(best)
                                       /\ Change(n, "STANDINGUP", ch, V)
            [] st[n] = "STANDINGUP" ->
                 LET inF == In(n)
                     yes == {p \in inF : V[p].resp = "approve"}
                     half == Cardinality(FullPeers(n))
                     behind == \E p \in inF : ~V[p].fk /\ V[p].cc > me
                     denied == \E p \in inF : V[p].resp = "deny"
                     enough == IF MISTAKE = "oneShort" THEN 2 * Cardinality(yes) + 2 >= half ELSE 2 * Cardinality(yes) >= half
                 IN IF (behind /\ MISTAKE # "behind") \/ (denied /\ MISTAKE # "denied") THEN Change(n, "SEARCHING", ch, V) /\ UNCHANGED bad
                    ELSE \/ /\ 2 * Cardinality(inF) >= half /\ enough /\ Change(n, "LEADING", ch, V)
                            \* a transaction most full nodes had (those that approved: when they did) is missing
                            /\ LET Had(x) == IF x \in yes THEN V[x].had ELSE log[x]
                               IN bad' = bad \cup (IF \E m \in FullNodes : ~Prefix(Had(m), log[n]) /\
                                                    2 * Cardinality({x \in FullNodes : Prefix(Had(m), Had(x))}) > Cardinality(FullNodes)
                                                THEN {"misses"} ELSE {})
                                             \* or it was approved by one whose history differs
                                             \cup (IF \E p \in yes : ~Prefix(Had(p), log[n]) THEN {"forked"} ELSE {})
                         \* gives up after a while
                         \/ ~(2 * Cardinality(inF) >= half /\ enough) /\ Change(n, "SEARCHING", ch, V) /\ UNCHANGED bad
            [] st[n] \in {"LEADING", "STANDINGDOWN"} ->
                 LET c1 == Ship(ch, n, ship[n] + 1, log[n])
                     why == \E p \in Others(n) : \/ V[p].st = "LEADING"
                                                 \/ V[p].st = "WAITING" /\ (Prio(p) > Prio(n) \/ V[p].cc > me)
                 IN /\ UNCHANGED bad
                    /\ IF st[n] = "STANDINGDOWN" \/ why THEN Change(n, "SEARCHING", ch, V)
                       ELSE /\ ship[n] < me /\ ship' = [ship EXCEPT ![n] = IF MISTAKE = "shipOne" THEN me ELSE me]
                            /\ ch' = IF MISTAKE = "shipOne" THEN SendAll(ch, n, {p \in Others(n) : V[p].sub}, [t |-> "TX", log |-> log[n], cc |-> me]) ELSE c1
                            /\ UNCHANGED <<st, sc, lead, v>>
            [] st[n] = "FOLLOWING" ->
                 /\ lead[n] # 0 /\ V[lead[n]].st \notin {"LEADING", "STANDINGDOWN"} /\ Change(n, "SEARCHING", ch, V) /\ UNCHANGED bad
            [] OTHER -> FALSE

\* a client's write on a leader is committed there at once
Write(n) == /\ st[n] \in (IF MISTAKE = "lateWrite" THEN {"LEADING", "STANDINGDOWN", "SEARCHING"} ELSE {"LEADING", "STANDINGDOWN"}) /\ made < MaxCommits
            \* (Careful: clients wait until most of the cluster follows)
            /\ Careful => 2 * Cardinality({p \in FullPeers(n) : v[n][p].sub}) >= Cardinality(FullPeers(n))
            /\ made' = made + 1 /\ log' = [log EXCEPT ![n] = Append(@, made + 1)]
            /\ bad' = bad \cup (IF st[n] \notin {"LEADING", "STANDINGDOWN"} THEN {"late"} ELSE {})
            /\ UNCHANGED <<st, sc, lead, ship, v, ch, ok, faults, broke>>

----------------------------------------------------------------------------
(* connections *)
Connect(a, b) ==
    /\ a < b /\ Pair(a, b) \notin ok /\ ~v[a][b].in /\ ~v[b][a].in /\ ~v[a][b].fk /\ ~v[b][a].fk
    /\ ok' = ok \cup {Pair(a, b)}
    /\ LET same == Prefix(log[a], log[b]) \/ Prefix(log[b], log[a])
           see(n, p) == IF same \/ MISTAKE = "noFork" THEN [NoView EXCEPT !.in = TRUE, !.st = st[p], !.cc = Len(log[p])]
                        ELSE [NoView EXCEPT !.fk = TRUE]
           c0 == [ch EXCEPT ![a][b] = <<>>, ![b][a] = <<>>]
           \* (a login in STANDINGUP is answered)
           ask(c, n, p) == IF st[n] = "STANDINGUP" /\ same THEN [c EXCEPT ![n][p] = Append(@, StateMsg(n, "STANDINGUP", sc[n], Len(log[n])))] ELSE c
       IN /\ v' = [v EXCEPT ![a][b] = see(a, b), ![b][a] = see(b, a)]
          /\ ch' = ask(ask(c0, a, b), b, a)
    /\ UNCHANGED <<st, log, sc, lead, ship, made, faults, broke, bad>>
Break(a, b) ==
    /\ a < b /\ Pair(a, b) \in ok /\ faults < MaxFaults /\ faults' = faults + 1 /\ broke' = TRUE
    /\ ok' = ok \ {Pair(a, b)} /\ ch' = [ch EXCEPT ![a][b] = <<>>, ![b][a] = <<>>]
    /\ UNCHANGED <<st, log, sc, lead, ship, v, made, bad>>
\* what happens at n when it finds its connection with p gone; vn: its view without p
Lost(n, p) ==
    LET vn == [v[n] EXCEPT ![p] = NoView]
        left == {q \in FullPeers(n) : vn[q].in}
    IN IF lead[n] = p \/ (st[n] \in Leadish /\ 2 * Cardinality(left) < Cardinality(FullPeers(n) \ {p}) /\ MISTAKE # "keepLeading")
       THEN LET leaves == st[n] \in {"LEADING", "STANDINGDOWN"}
                c1 == IF leaves THEN Ship(ch, n, ship[n] + 1, log[n]) ELSE ch
            IN /\ st' = [st EXCEPT ![n] = "SEARCHING"] /\ sc' = [sc EXCEPT ![n] = @ + 1] /\ lead' = [lead EXCEPT ![n] = 0]
               /\ ship' = [ship EXCEPT ![n] = IF leaves THEN Len(log[n]) ELSE @]
               /\ ch' = SendAll(c1, n, Others(n) \ {p}, StateMsg(n, "SEARCHING", sc[n] + 1, Len(log[n])))
               /\ v' = [v EXCEPT ![n] = [q \in Nodes |-> [vn[q] EXCEPT !.sub = @ /\ ~leaves]]]
       ELSE v' = [v EXCEPT ![n] = vn] /\ UNCHANGED <<st, sc, lead, ship, ch>>
Notice(n, p) == /\ n # p /\ v[n][p].in /\ Pair(n, p) \notin ok
                /\ Lost(n, p)
                /\ UNCHANGED <<log, ok, made, faults, broke, bad>>
\* a node dies and starts again: all its connections break, it forgets everything but what it committed
Crash(n) ==
    /\ faults < MaxFaults /\ faults' = faults + 1 /\ broke' = TRUE
    /\ ok' = {x \in ok : n \notin x}
    /\ st' = [st EXCEPT ![n] = "SEARCHING"] /\ sc' = [sc EXCEPT ![n] = 1] /\ lead' = [lead EXCEPT ![n] = 0]
    /\ ship' = [ship EXCEPT ![n] = Len(log[n])]
    /\ v' = [v EXCEPT ![n] = [p \in Nodes |-> NoView]]
    /\ ch' = [a \in Nodes |-> [b \in Nodes |-> IF n \in {a, b} THEN <<>> ELSE ch[a][b]]]
    /\ UNCHANGED <<log, made, bad>>
\* n closes its connection with p (it throws): both ends find it gone
Close(n, p) == broke' = TRUE /\ ok' = ok \ {Pair(n, p)} /\ ch' = [ch EXCEPT ![n][p] = <<>>, ![p][n] = <<>>]

----------------------------------------------------------------------------
(* n is given the next message from p *)
Deliver(n, p) ==
    /\ n # p /\ Len(ch[p][n]) > 0 /\ v[n][p].in
    /\ LET m == Head(ch[p][n])
           c0 == [ch EXCEPT ![p][n] = Tail(@)]
           V == [v[n] EXCEPT ![p].cc = m.cc]
           me == Len(log[n])
           Give(lg) == log' = [log EXCEPT ![n] = lg]
           Reject == Close(n, p) /\ v' = [v EXCEPT ![n] = V] /\ UNCHANGED <<st, sc, lead, ship, log>>
       IN /\ UNCHANGED <<made, faults>>
          /\ CASE m.t = "STATE" ->
                    LET V1 == [V EXCEPT ![p].st = m.st, ![p].sub = IF m.st = "SEARCHING" THEN FALSE ELSE @]
                        say(r) == [t |-> "RESP", resp |-> r, sc |-> m.sc, had |-> log[n], cc |-> me]
                        others == \E q \in Others(n) \ {p} : V1[q].st \in Leadish
                        majsub == 2 * Cardinality({q \in FullPeers(n) : V1[q].sub}) >= Cardinality(FullPeers(n))
                    IN /\ UNCHANGED <<log, bad>>
                       /\ IF m.st = "STANDINGUP" /\ p \notin Perma /\ st[n] \in Leadish /\ MISTAKE # "twoLeaders" /\ Prio(p) < Prio(n) /\ ~majsub
                          THEN \* it gives up and breaks all its connections
                               /\ broke' = TRUE /\ ok' = {x \in ok : n \notin x}
                               /\ st' = [st EXCEPT ![n] = "SEARCHING"] /\ sc' = [sc EXCEPT ![n] = @ + 1]
                               /\ ship' = [ship EXCEPT ![n] = IF st[n] = "STANDINGUP" THEN @ ELSE Len(log[n])]
                               /\ ch' = [x \in Nodes |-> [y \in Nodes |-> IF n \in {x, y} THEN <<>> ELSE ch[x][y]]]
                               /\ v' = [v EXCEPT ![n] = [q \in Nodes |-> [V1[q] EXCEPT !.sub = FALSE]]] /\ UNCHANGED lead
                          ELSE /\ UNCHANGED <<ok, broke>>
                               /\ IF m.st # "STANDINGUP" THEN Stay(n, c0, V1)
                                  ELSE IF p \in Perma THEN Stay(n, Send(c0, n, p, say("deny")), V1)
                                  ELSE IF st[n] \in Leadish /\ MISTAKE # "twoLeaders" THEN
                                       IF Prio(p) > Prio(n) THEN
                                          CASE st[n] = "STANDINGUP" -> Change(n, "SEARCHING", c0, V1)
                                            [] st[n] = "LEADING" -> Change(n, "STANDINGDOWN", c0, V1)
                                            [] OTHER -> Stay(n, c0, V1)
                                       ELSE Stay(n, Send(c0, n, p, say("deny")), V1)
                                  ELSE Stay(n, Send(c0, n, p, say(IF others /\ MISTAKE # "othersIgnored" THEN "deny" ELSE "approve")), V1)
            [] m.t = "RESP" ->
                    /\ UNCHANGED <<log, ok, broke, bad>>
                    /\ IF st[n] = "STANDINGUP" /\ (m.sc = sc[n] \/ MISTAKE = "oldResponse") THEN Stay(n, c0, [V EXCEPT ![p].resp = m.resp, ![p].had = m.had]) ELSE Stay(n, c0, V)
            [] m.t = "SYNC" ->
                    /\ UNCHANGED bad
                    /\ IF Prefix(m.log, log[n])
                       THEN Stay(n, Send(c0, n, p, [t |-> "SYNCED", log |-> log[n], cc |-> me]), V) /\ UNCHANGED <<log, ok, broke>>
                       ELSE Reject
            [] m.t = "SYNCED" ->
                    IF st[n] = "SYNCHRONIZING" /\ lead[n] = p /\ Prefix(log[n], m.log)
                    THEN /\ Give(m.log) /\ UNCHANGED <<ok, broke, bad, ship>>
                         /\ st' = [st EXCEPT ![n] = "WAITING"] /\ sc' = [sc EXCEPT ![n] = @ + 1] /\ lead' = [lead EXCEPT ![n] = 0]
                         /\ ch' = SendAll(c0, n, Others(n), StateMsg(n, "WAITING", sc[n] + 1, Len(m.log))) /\ v' = [v EXCEPT ![n] = V]
                    ELSE Reject /\ UNCHANGED bad
            [] m.t = "SUB" ->
                    /\ UNCHANGED bad
                    /\ IF st[n] = "LEADING" /\ Prefix(m.log, log[n])
                       THEN /\ Stay(n, Send(c0, n, p, [t |-> "APPROVED", log |-> SubSeq(log[n], 1, IF MISTAKE = "subEarly" THEN me ELSE ship[n]), cc |-> me]),
                                    [V EXCEPT ![p].sub = TRUE])
                            /\ UNCHANGED <<log, ok, broke>>
                       ELSE Reject
            [] m.t = "APPROVED" ->
                    IF st[n] = "SUBSCRIBING" /\ lead[n] = p /\ Prefix(log[n], m.log)
                    THEN /\ Give(m.log) /\ UNCHANGED <<ok, broke, bad, ship, lead>>
                         /\ st' = [st EXCEPT ![n] = "FOLLOWING"] /\ sc' = [sc EXCEPT ![n] = @ + 1]
                         /\ ch' = SendAll(c0, n, Others(n), StateMsg(n, "FOLLOWING", sc[n] + 1, Len(m.log))) /\ v' = [v EXCEPT ![n] = V]
                    ELSE Reject /\ UNCHANGED bad
            [] m.t = "TX" ->
                    /\ IF st[n] = "FOLLOWING" /\ lead[n] = p
                       THEN IF me + 1 = Len(m.log) /\ Prefix(log[n], m.log)
                            THEN Give(m.log) /\ Stay(n, c0, V) /\ UNCHANGED <<ok, broke, bad>>
                            \* a follower must be given exactly its next transaction
                            ELSE Reject /\ bad' = bad \cup {"gap"}
                       ELSE Stay(n, c0, V) /\ UNCHANGED <<log, ok, broke, bad>>

Next == \/ \E n \in Nodes : Turn(n) \/ Write(n) \/ Crash(n)
        \/ \E a, b \in Nodes : Connect(a, b) \/ Break(a, b) \/ Notice(a, b) \/ Deliver(a, b)
Spec == Init /\ [][Next]_vars
Bound == \A n \in Nodes : sc[n] <= MaxChanges

----------------------------------------------------------------------------
NothingBad == bad = {}
\* no two leaders that can talk to each other and have both finished standing up with what was said to them
Counted(n) == {n} \cup {p \in FullNodes : v[n][p].sub}
OneLeader == \A a, b \in Nodes : a # b /\ st[a] = "LEADING" /\ st[b] = "LEADING" =>
                ~(2 * Cardinality(Counted(a) \cap FullNodes) > Cardinality(FullNodes) /\ 2 * Cardinality(Counted(b) \cap FullNodes) > Cardinality(FullNodes)
                   /\ \A p \in Counted(a) : p # a => Pair(a, p) \in ok /\ lead[p] = a
                   /\ \A q \in Counted(b) : q # b => Pair(b, q) \in ok /\ lead[q] = b)
\* while no connection has broken there are never two leaders at all
OneLeaderAtAll == ~broke => Cardinality({n \in Nodes : st[n] = "LEADING"}) <= 1
\* while nothing breaks, and most of the cluster follows whoever is written to, all nodes have the same transactions
AllAgree == ~broke /\ Careful => \A a, b \in Nodes :
                (Prefix(Start[a], Start[b]) \/ Prefix(Start[b], Start[a])) => (Prefix(log[a], log[b]) \/ Prefix(log[b], log[a]))
PermaNeverLeads == \A n \in Perma : st[n] \notin Leadish
\* a follower has what its leader has, up to what is under way
FollowsLeader == \A n \in Nodes : st[n] = "FOLLOWING" /\ lead[n] # 0 /\ Pair(n, lead[n]) \in ok =>
                    Prefix(log[n], log[lead[n]]) \/ Len(ch[lead[n]][n]) > 0
\* a leader's followers have all of its transactions when they are told that it has left
ShippedBeforeLeaving == \A n, p \in Nodes :
    st[p] = "FOLLOWING" /\ lead[p] = n /\ Len(ch[n][p]) > 0 /\ Head(ch[n][p]).t = "STATE" /\ Head(ch[n][p]).st = "SEARCHING"
      => Len(log[p]) >= Head(ch[n][p]).cc
=============================================================================
