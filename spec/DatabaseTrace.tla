---------------------------- MODULE DatabaseTrace ----------------------------
(* Recorded calls of real handles over one file, each with its result, checked against Database.  The journal and the data
   as another process sees them follow every commit and rollback.
     vers   the versions of the data, newest last; each handle's transaction keeps F, those it may be looking at
     txs    the committed transactions [q, hash]; there: the numbers the journal must have; here: those it may have
     own    who holds the right to commit next
   The stand-in for BEGIN CONCURRENT finds conflicts per table and lets a transaction that lost run on without meaning;
   `may` says that has possibly happened to a transaction, `dead` that it is assumed to have.                             *)
EXTENDS TraceLib, Database
VARIABLES tr, l, vers, txs, own, hs, here, keep, popped, enabled, failing, rw, nops, conc, per
dvars == <<vers, txs, own, hs, here, keep, popped, enabled, failing, rw, nops, conc, per>>
tvars == <<tr, l, dvars>>
Ev == Traces[tr][l]
More == l <= Len(Traces[tr])
Is(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
N == Len(txs)
LastHash == IF N = 0 THEN "" ELSE txs[N].hash
Cur == Len(vers)
NoTx == [in |-> FALSE, excl |-> FALSE, prep |-> FALSE, F |-> {}, base |-> 0, done |-> <<>>, tch |-> {}, q |-> "", may |-> FALSE, dead |-> FALSE,
         broken |-> FALSE, preps |-> 0, hash |-> "", since |-> {}]
Fresh(m) == [max |-> m, qonly |-> FALSE, white |-> FALSE, W |-> All, noop |-> FALSE, rewrite |-> FALSE, notify |-> FALSE, tx |-> NoTx]
T == hs[Ev.h].tx
View(h, v) == Fold(vers[v], hs[h].tx.done)
\* everybody else's transaction meets a new version `new` made by one that touched `tables`
Meet(x, new, tables) ==
    IF ~x.in THEN x
    ELSE [x EXCEPT !.F = IF \E v \in @ : SameOn(vers[v], new, x.tch) THEN @ \cup {Cur + 1} ELSE @,
                   !.may = @ \/ x.preps > 0 \/ x.tch \cap tables # {}, !.since = @ \cup tables]
MeetAll(h, new, tables) == [g \in DOMAIN hs |-> IF g = h THEN hs[g] ELSE [hs[g] EXCEPT !.tx = Meet(@, new, tables)]]
Set(h, x) == hs' = [hs EXCEPT ![h].tx = x]
Rest(s) == UNCHANGED s
Quiet == UNCHANGED dvars

Init0 == vers = <<Empty>> /\ txs = <<>> /\ own = -1 /\ hs = <<>> /\ here = {} /\ keep = 1 /\ popped = 0 /\ enabled = TRUE /\ failing = FALSE /\ rw = <<>>
         /\ nops = [ops |-> <<>>, sql |-> <<>>] /\ conc = [u |-> <<>>, st |-> <<>>] /\ per = <<>>
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ Init0

OpenH ==
    /\ (Is("open") \/ Is("copy")) /\ Ev.count = N /\ Ev.hash = LastHash
    /\ hs' = (Ev.h :> Fresh(Ev.max)) @@ hs
    /\ popped' = IF hs = <<>> THEN N ELSE popped
    /\ UNCHANGED <<vers, txs, own, here, keep, enabled, failing, rw, nops, conc, per>>
CloseH ==
    /\ Is("close") /\ hs' = [g \in DOMAIN hs \ {Ev.h} |-> hs[g]] /\ own' = (IF own = Ev.h THEN -1 ELSE own)
    /\ UNCHANGED <<vers, txs, here, keep, popped, enabled, failing, rw, nops, conc, per>>
\* the end of the process: whatever was committed stays, and perhaps the transaction just being committed
Restarted == hs' = <<>> /\ own' = -1 /\ enabled' = TRUE /\ failing' = FALSE /\ rw' = <<>> /\ nops' = [ops |-> <<>>, sql |-> <<>>]
Exit ==
    /\ Is("exit") /\ Restarted /\ UNCHANGED <<vers, txs, here, keep, popped, conc, per>>
Committed(h, x) == [q |-> x.q, hash |-> x.hash]
AllowTrim(h) == LET lim == (N + 1) - hs[h].max IN IF lim + 1 > keep THEN lim + 1 ELSE keep
Crash ==
    /\ Is("crash") /\ Restarted
    /\ \/ UNCHANGED <<vers, txs, here, keep, popped, conc, per>>
       \/ /\ own # -1 /\ own \in DOMAIN hs /\ enabled
          /\ LET x == hs[own].tx IN
             /\ x.in /\ x.prep /\ ~x.dead /\ ~x.broken /\ Cur \in x.F
             /\ vers' = Append(vers, View(own, Cur)) /\ txs' = Append(txs, Committed(own, x))
             /\ here' = here \cup {N + 1} /\ keep' = AllowTrim(own)
          /\ UNCHANGED <<popped, conc, per>>

Tx ==
    /\ Is("tx")
    /\ IF T.in
       THEN \* a forgotten transaction: refused, and the handle usable again
            /\ Ev.res = "throw" /\ Set(Ev.h, NoTx) /\ own' = (IF own = Ev.h THEN -1 ELSE own)
       ELSE IF failing /\ Ev.res = "false" THEN UNCHANGED <<hs, own>>
       ELSE /\ Ev.res = "ok" /\ (Ev.excl => own = -1)
            /\ Set(Ev.h, [NoTx EXCEPT !.in = TRUE, !.excl = Ev.excl, !.F = {Cur}, !.base = Cur])
            /\ own' = IF Ev.excl THEN Ev.h ELSE own
    /\ failing' = IF Ev.res = "false" THEN FALSE ELSE failing
    /\ UNCHANGED <<vers, txs, here, keep, popped, enabled, rw, nops, conc, per>>

Tables(ops) == {ops[i].t : i \in {k \in DOMAIN ops : ops[k].op # "bad"}}
Replaced == hs[Ev.h].rewrite /\ Len(Ev.ops) = 1 /\ Ev.ops[1].op \in Inserts /\ Ev.ops[1].t = "a"
Ops == IF Replaced THEN rw.ops ELSE Ev.ops
Sql == IF Replaced THEN rw.sql ELSE Ev.sql
Skipped == hs[Ev.h].noop /\ Ev.kind \in {"write", "wres", "pwrite"}
NoUpdate(ops) == IF hs[Ev.h].noop THEN SelectSeq(ops, LAMBDA o : o.op \notin {"add", "heavy"}) ELSE ops
LocalW ==
    /\ Ev.kind = "local"
    /\ IF T.in THEN Ev.res = "false" /\ UNCHANGED <<vers, hs>>
       ELSE \/ Ev.res = "false" /\ (failing \/ Run(vers[Cur], Ev.ops, Start).res # "ok") /\ UNCHANGED <<vers, hs>>
            \/ /\ Ev.res = "ok"
               /\ LET r == Run(vers[Cur], Ev.ops, Start) new == Fold(vers[Cur], r.done) IN
                  r.res = "ok" /\ vers' = Append(vers, new) /\ hs' = MeetAll(Ev.h, new, Tables(Ev.ops))
    /\ UNCHANGED <<txs, own, here, keep, popped, enabled, failing, rw, nops, conc, per>>
\* a refused statement still counts as touching its tables where conflicts are looked for
Touched == [T EXCEPT !.tch = @ \cup Tables(Ops) \cup Tables(Ev.ops), !.may = @ \/ ((Tables(Ops) \cup Tables(Ev.ops)) \cap T.since # {})]
Refused == Set(Ev.h, Touched)
TxW ==
    /\ Ev.kind # "local"
    /\ IF ~T.in THEN Ev.res = "throw" /\ Rest(hs)
       ELSE IF Skipped THEN Ev.res = "ok" /\ Rest(hs)
       ELSE IF hs[Ev.h].white THEN Ev.res = "false" /\ Refused
       ELSE IF Ev.res \in {"timeout", "abort"} THEN Set(Ev.h, [T EXCEPT !.broken = TRUE, !.dead = TRUE])
       ELSE \/ /\ T.dead \/ Touched.may
               /\ Set(Ev.h, [T EXCEPT !.dead = TRUE])
            \/ /\ ~T.dead /\ failing /\ Ev.res = "false" /\ Refused
            \/ /\ ~T.dead /\ hs[Ev.h].qonly /\ Ev.res = "false" /\ Refused
            \/ /\ ~T.dead /\ ~hs[Ev.h].qonly
               /\ \E v \in T.F :
                    LET r == Run(View(Ev.h, v), NoUpdate(Ops), Start)
                        tch == Touched.tch
                        may == Touched.may IN
                    /\ r.res = Ev.res
                    /\ Set(Ev.h, [T EXCEPT !.tch = tch, !.may = may, !.F = {w \in @ : SameOn(vers[w], vers[v], tch)}, !.done = @ \o r.done,
                                           !.q = IF r.res = "ok" /\ (r.changed \/ Ev.kind = "unmod") THEN @ \o Cat(Sql) ELSE @,
                                           \* a failed list of statements is partly done: only a rollback is left
                                           !.broken = @ \/ (r.res # "ok" /\ r.done # <<>>)])
    /\ failing' = IF Ev.res = "false" THEN FALSE ELSE failing
    /\ UNCHANGED <<vers, txs, own, here, keep, popped, enabled, rw, nops, conc, per>>
W == Is("w") /\ (LocalW \/ TxW)

ReadT == IF Ev.q = "view" THEN "a" ELSE Ev.t
ReadOK(S) ==
    LET w == IF hs[Ev.h].white THEN hs[Ev.h].W ELSE All IN
    IF Ev.q = "view" THEN ViewOK(S, w, hs[Ev.h].white, Ev.rows) ELSE Ev.rows = Rows(S, w, Ev.q, Ev.t, Ev.k)
R ==
    /\ Is("r")
    /\ IF Ev.q = "write" THEN Ev.res = "false" /\ (hs[Ev.h].white \/ hs[Ev.h].qonly) /\ Rest(hs)
       ELSE IF Ev.res \in {"timeout", "abort"} THEN Set(Ev.h, [T EXCEPT !.broken = TRUE, !.dead = TRUE])
       ELSE IF failing /\ Ev.res = "false" THEN Rest(hs)
       ELSE /\ Ev.res = "ok"
            /\ IF ~T.in THEN ReadOK(vers[Cur]) /\ Rest(hs)
               ELSE \/ /\ T.dead \/ T.may \/ ReadT \in T.since
                       /\ Set(Ev.h, [T EXCEPT !.dead = TRUE])
                    \/ /\ ~T.dead
                       /\ \E v \in T.F : /\ ReadOK(View(Ev.h, v))
                                         /\ Set(Ev.h, [T EXCEPT !.tch = @ \cup {ReadT}, !.may = @ \/ ReadT \in T.since, !.F = {w \in @ : SameOn(vers[w], vers[v], T.tch \cup {ReadT})}])
    /\ failing' = IF Ev.res = "false" /\ Ev.q # "write" THEN FALSE ELSE failing
    /\ UNCHANGED <<vers, txs, own, here, keep, popped, enabled, rw, nops, conc, per>>
\* the answer changes by itself, so it is never the old one
Fn == Is("fn") /\ Ev.ok /\ (Ev.varies => ~Ev.same) /\ Quiet

RECURSIVE Each(_, _, _, _)
Each(S, ops, sql, r) == IF ops = <<>> THEN r ELSE
    Each(Effect(S, Head(ops)), Tail(ops), Tail(sql), [done |-> Append(r.done, Head(ops)), q |-> IF Changes(S, Head(ops)) THEN r.q \o Head(sql) ELSE r.q])
Prep ==
    /\ Is("prep") /\ T.in
    /\ LET run == IF hs[Ev.h].notify THEN Each(View(Ev.h, IF Cur \in T.F THEN Cur ELSE CHOOSE v \in T.F : TRUE), nops.ops, nops.sql, [done |-> <<>>, q |-> ""]) ELSE [done |-> <<>>, q |-> ""]
           y == [T EXCEPT !.preps = @ + 1, !.may = @ \/ Cur > T.base, !.tch = @ \cup (IF hs[Ev.h].notify THEN Tables(nops.ops) ELSE {}), !.done = @ \o run.done,
                          !.q = @ \o run.q]
           z == [T EXCEPT !.preps = @ + 1, !.may = @ \/ Cur > T.base] IN
       CASE Ev.res = "ok" -> /\ own \in {-1, Ev.h} /\ (Ev.abort => T.excl) /\ Ev.inside
                             /\ Ev.id = N + 1 /\ own' = Ev.h
                             \* the handler's writes meet the newest version of what was not touched yet
                             /\ Set(Ev.h, [y EXCEPT !.prep = TRUE, !.hash = Ev.hash,
                                                    !.F = IF hs[Ev.h].notify THEN {w \in @ : SameOn(vers[w], vers[Cur], y.tch)} ELSE @,
                                                    !.dead = @ \/ (hs[Ev.h].notify /\ Cur \notin T.F)])
                             /\ UNCHANGED failing
         [] Ev.res = "false" /\ Ev.inside -> /\ (own \notin {-1, Ev.h} \/ Ev.abort) /\ ~T.excl
                                             /\ Set(Ev.h, z) /\ UNCHANGED <<own, failing>>
         [] Ev.res = "false" /\ ~Ev.inside -> /\ failing /\ failing' = FALSE
                                              /\ Set(Ev.h, NoTx) /\ own' = IF own \in {-1, Ev.h} THEN -1 ELSE own
    /\ UNCHANGED <<vers, txs, here, keep, popped, enabled, rw, nops, conc, per>>
Commit ==
    /\ Is("commit")
    /\ CASE Ev.res = "ok" ->
              /\ T.in /\ T.prep /\ ~T.dead /\ ~T.broken /\ own = Ev.h /\ Cur \in T.F /\ enabled /\ ~Ev.forced
              /\ Ev.count = N + 1 /\ Ev.hash = T.hash
              /\ LET new == View(Ev.h, Cur) IN
                 /\ vers' = Append(vers, new)
                 /\ hs' = [MeetAll(Ev.h, new, T.tch) EXCEPT ![Ev.h].tx = [NoTx EXCEPT !.preps = T.preps]]
              /\ txs' = Append(txs, Committed(Ev.h, T)) /\ own' = -1
              /\ here' = here \cup {N + 1} /\ keep' = AllowTrim(Ev.h)
         [] Ev.res = "conflict" ->
              /\ T.in /\ T.prep /\ own = Ev.h /\ enabled
              /\ Ev.forced \/ T.dead \/ Cur > T.base
              /\ Ev.count = N /\ Ev.hash = LastHash
              /\ Set(Ev.h, [T EXCEPT !.dead = TRUE]) /\ UNCHANGED <<vers, txs, own, here, keep>>
         [] Ev.res = "disabled" -> ~enabled /\ Ev.count = N /\ Ev.hash = LastHash /\ UNCHANGED <<vers, hs, txs, own, here, keep>>
         [] OTHER -> FALSE
    /\ UNCHANGED <<popped, enabled, failing, rw, nops, conc, per>>
Rollback ==
    /\ Is("rollback") /\ ~Ev.inside /\ Ev.count = N
    /\ Set(Ev.h, NoTx) /\ own' = (IF own = Ev.h THEN -1 ELSE own)
    /\ UNCHANGED <<vers, txs, here, keep, popped, enabled, failing, rw, nops, conc, per>>
Settings ==
    \/ Is("enable") /\ enabled' = Ev.on /\ UNCHANGED <<vers, txs, own, hs, here, keep, popped, failing, rw, nops, conc, per>>
    \/ Is("fail") /\ failing' = Ev.on /\ UNCHANGED <<vers, txs, own, hs, here, keep, popped, enabled, rw, nops, conc, per>>
    \/ /\ Is("white") \/ Is("noop") \/ Is("rewrite") \/ Is("qonly") \/ Is("notify")
       /\ hs' = [hs EXCEPT ![Ev.h] =
            CASE Ev.e = "white" -> [@ EXCEPT !.white = Ev.on, !.W = [a |-> Range0(Ev.a), b |-> Range0(Ev.b)]]
              [] Ev.e = "noop" -> [@ EXCEPT !.noop = Ev.on, !.tx.q = IF hs[Ev.h].tx.in /\ hs[Ev.h].noop # Ev.on THEN @ \o Ev.text ELSE @]
              [] Ev.e = "rewrite" -> [@ EXCEPT !.rewrite = Ev.on]
              [] Ev.e = "qonly" -> [@ EXCEPT !.qonly = Ev.on]
              [] OTHER -> [@ EXCEPT !.notify = Ev.on]]
       /\ (Ev.e = "noop" => Ev.is = Ev.on)
       /\ rw' = IF Ev.e = "rewrite" THEN [ops |-> Ev.ops, sql |-> Ev.sql] ELSE rw
       /\ nops' = IF Ev.e = "notify" THEN [ops |-> Ev.ops, sql |-> Ev.sql] ELSE nops
       /\ UNCHANGED <<vers, txs, own, here, keep, popped, enabled, failing, conc, per>>

Same(e, i) == e.q = txs[i].q /\ e.hash = txs[i].hash
Pop ==
    /\ Is("pop")
    /\ Len(Ev.txs) = N - popped /\ \A i \in 1 .. Len(Ev.txs) : Ev.txs[i].id = popped + i /\ Same(Ev.txs[i], popped + i)
    /\ popped' = N /\ UNCHANGED <<vers, txs, own, hs, here, keep, enabled, failing, rw, nops, conc, per>>
\* every number from 0 to one beyond the last: found or not, exactly as committed
Get ==
    /\ Is("get") /\ Len(Ev.all) = N + 2
    /\ \A i \in 0 .. N + 1 : LET e == Ev.all[i + 1] IN
         e.id = i /\ e.agree /\ e.ok = (i \in here) /\ (e.ok => Same(e, i))
    /\ Quiet
RangeQ ==
    /\ Is("range") /\ Ev.rc = 0
    /\ LET want == Sorted({i \in here : i >= Ev.from /\ (Ev.to = 0 \/ i <= Ev.to)}) IN
       Len(Ev.rows) = Len(want) /\ \A i \in DOMAIN want : Same(Ev.rows[i], want[i])
    /\ Quiet
Ids(js) == {js[i].id : i \in DOMAIN js}
UnionOf(ss) == UNION {Range0(ss[i]) : i \in DOMAIN ss}
\* What is stored. The journal holds at least what it must, and what went since the last look is old enough and little enough.
Dump ==
    /\ Is("dump") /\ Ev.chain
    /\ Range0(Ev.a) = {<<k, vers[Cur].a[k]>> : k \in DOMAIN vers[Cur].a} /\ Range0(Ev.b) = {<<k, vers[Cur].b[k]>> : k \in DOMAIN vers[Cur].b}
    /\ Len(Ev.journal) = Cardinality(Ids(Ev.journal))
    /\ UnionOf(Ev.per) = Ids(Ev.journal)
    /\ \A i \in DOMAIN Ev.journal : Ev.journal[i].id \in 1 .. N /\ Same(Ev.journal[i], Ev.journal[i].id)
    /\ LET now == Ids(Ev.journal)
           gone == here \ now IN
       /\ now \subseteq here
       /\ \A i \in gone : i < keep
       /\ (N > 0 => N \in now)
       /\ here' = now
       /\ IF Ev.step   \* one commit since the last look, prepared once
          THEN /\ Cardinality(gone) <= 10
               /\ \E t \in DOMAIN Ev.per :
                    /\ N \in Range0(Ev.per[t])
                    /\ LET before == IF t \in DOMAIN per THEN per[t] ELSE {}
                           stale == {i \in before : i < N - 1 - Ev.max} IN
                       Cardinality(gone) >= (IF Cardinality(stale) < 2 THEN Cardinality(stale) ELSE 2)
          ELSE TRUE
    /\ per' = [t \in DOMAIN Ev.per |-> Range0(Ev.per[t])]
    /\ UNCHANGED <<vers, txs, own, hs, keep, popped, enabled, failing, rw, nops, conc>>

\* ---- free concurrency: tries in the order the right to commit was held
RECURSIVE Explain(_, _, _)
Explain(S, steps, q) == \* [ok, S, q]: the steps as run on S
    IF steps = <<>> THEN [ok |-> TRUE, S |-> S, q |-> q]
    ELSE LET s == Head(steps) IN
         IF s.op = "get"
         THEN IF s.rows = Rows(S, All, "get", s.t, s.k) THEN Explain(S, Tail(steps), q) ELSE [ok |-> FALSE, S |-> S, q |-> q]
         ELSE Explain(Effect(S, s), Tail(steps), IF Changes(S, s) THEN q \o s.sql ELSE q)
Land(u) == LET x == Explain(vers[Cur], u.steps, "") IN
           /\ u.n = N + 1 /\ x.ok /\ enabled /\ vers' = Append(vers, x.S) /\ txs' = Append(txs, [q |-> x.q, hash |-> u.hash])
           /\ here' = here \cup {N + 1} /\ keep' = LET lim == (N + 1) - hs[0].max IN IF lim + 1 > keep THEN lim + 1 ELSE keep
Fact(tx, s) == conc' = [u |-> <<>>, st |-> (tx :> s) @@ conc.st]
ConcRest == UNCHANGED <<own, hs, popped, enabled, failing, rw, nops, per>>
\* the unfinished try turns out committed or lost, by what is seen next
Conc ==
    \/ /\ More /\ Ev.e = "try" /\ conc.u # <<>> /\ UNCHANGED <<tr, l>> /\ ConcRest
       /\ LET u == conc.u[1] IN
          IF Ev.n = u.n + 1 THEN Land(u) /\ Fact(u.tx, "c")
          ELSE Ev.n = u.n /\ Fact(u.tx, "l") /\ UNCHANGED <<vers, txs, here, keep>>
    \/ /\ More /\ Ev.e = "ctog" /\ ~Ev.on /\ conc.u # <<>> /\ UNCHANGED <<tr, l>> /\ ConcRest
       /\ \/ Land(conc.u[1]) /\ Fact(conc.u[1].tx, "c")
          \/ Fact(conc.u[1].tx, "l") /\ UNCHANGED <<vers, txs, here, keep>>
    \/ /\ Is("ctog") /\ (Ev.on \/ conc.u = <<>>) /\ enabled' = Ev.on /\ Ev.count = N  \* nothing lands while they are off
       /\ UNCHANGED <<vers, txs, own, hs, here, keep, popped, failing, rw, nops, conc, per>>
    \/ /\ Is("try") /\ conc.u = <<>> /\ Ev.n = N + 1 /\ conc' = [conc EXCEPT !.u = <<Ev>>] /\ ConcRest /\ UNCHANGED <<vers, txs, here, keep>>
    \/ /\ Is("done") \/ Is("lost")
       /\ ConcRest
       /\ LET want == IF Ev.e = "done" THEN "c" ELSE "l" IN
          IF Ev.tx \in DOMAIN conc.st THEN conc.st[Ev.tx] = want /\ UNCHANGED <<conc, vers, txs, here, keep>>
          ELSE /\ conc.u # <<>> /\ conc.u[1].tx = Ev.tx
               /\ Fact(Ev.tx, want)
               /\ IF want = "c" THEN Land(conc.u[1]) ELSE UNCHANGED <<vers, txs, here, keep>>
    \/ /\ Is("cend") /\ conc.u = <<>> /\ Ev.mono /\ Ev.count = N /\ Ev.hash = LastHash
       /\ Len(Ev.txs) = N - popped /\ \A i \in 1 .. Len(Ev.txs) : Ev.txs[i].id = popped + i /\ Same(Ev.txs[i], popped + i)
       /\ popped' = N /\ UNCHANGED <<vers, txs, own, hs, here, keep, enabled, failing, rw, nops, conc, per>>
    \/ /\ Is("crash") /\ conc.u # <<>> /\ Restarted /\ Land(conc.u[1]) /\ Fact(conc.u[1].tx, "c") /\ UNCHANGED <<popped, per>>
    \/ /\ Is("crash") /\ conc.u # <<>> /\ Restarted /\ Fact(conc.u[1].tx, "l") /\ UNCHANGED <<vers, txs, here, keep, popped, per>>

Main == OpenH \/ CloseH \/ Exit \/ (conc.u = <<>> /\ Crash) \/ Tx \/ W \/ R \/ Fn \/ Prep \/ Commit \/ Rollback \/ Settings \/ Pop \/ Get \/ RangeQ \/ Dump \/ Conc
        \/ ((Is("begin") \/ Is("pending")) /\ Quiet)
\* the furthest event explained, for each trace
TraceNext == Main
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceProgress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(t, 0)
TraceAccepted == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) + 1 \/ (PrintT(<<"REJECTED", t, TLCGet(t)>>) /\ FALSE)
=============================================================================
