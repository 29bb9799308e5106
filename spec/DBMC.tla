-------------------------------- MODULE DBMC --------------------------------
(* Any sequence of queries of one or two statements, with a replica that runs what was replicated. *)
EXTENDS DB
CONSTANTS Ids, Txts, MaxOps
VARIABLES d, rep, t, bad
vars == <<d, rep, t, bad>>
Dflt == [op |-> "", t |-> "ta", rows |-> <<>>, mode |-> "abort", c |-> "all", n |-> 1, txt |-> "x", set |-> "x", add |-> FALSE, k |-> 0, desc |-> FALSE]
Conds == {[Dflt EXCEPT !.c = "all"], [Dflt EXCEPT !.c = "eq", !.n = 1], [Dflt EXCEPT !.c = "txt", !.txt = "y"]}
Ins == {[Dflt EXCEPT !.op = "ins", !.t = w, !.rows = <<[a |-> i, b |-> x]>>, !.mode = m] : w \in {"ta", "tb"}, i \in Ids \cup {0}, x \in Txts, m \in {"abort", "ignore", "replace"}}
Oth == UNION {{[c EXCEPT !.op = o, !.t = w, !.k = 1] : w \in {"ta", "tb"}, o \in {"copy", "upd", "move", "del", "sel"}} : c \in Conds}
Odd == {[Dflt EXCEPT !.op = o] : o \in {"txn", "broken", "ddl"}}
Stmts == Ins \cup Oth \cup Odd
Few == {s \in Stmts : s.op \notin {"ins"} \/ (s.rows[1].a = 1 /\ s.mode = "abort")}
Danger(ss) == ss[1].op \in {"upd", "move", "del"}
Mentions(ss) == \E k \in DOMAIN ss : ss[k].c # "all" /\ ss[k].op \in {"copy", "upd", "move", "del", "sel"}
Queries == LET f(ss, semi, nw) == [ss |-> ss, semi |-> semi, danger |-> Danger(ss), where |-> Mentions(ss), nowhere |-> nw]
           IN {f(<<s>>, semi, nw) : s \in Stmts, semi \in BOOLEAN, nw \in BOOLEAN} \cup {f(<<s, u>>, TRUE, FALSE) : s \in Few, u \in Few}
Empty == [ta |-> <<>>, tb |-> <<>>]
Init == d = Empty /\ rep = Empty /\ t = 0 /\ bad = "no"
Next == /\ t < MaxOps
        /\ t' = t + 1
        /\ \E q \in Queries :
            LET r == Run(d, q) IN
            /\ d' = r.d
            /\ rep' = IF r.kind = "write" THEN All(rep, q.ss).d ELSE rep
            /\ bad' = IF r.kind # "write" /\ r.d # d THEN "changed something without saying so"
                      ELSE IF r.kind = "write" /\ Len(q.ss) = 1 /\ q.ss[1].op = "del" /\ q.ss[1].c = "all" /\ ~q.nowhere THEN "emptied a table"
                      ELSE bad
Spec == Init /\ [][Next]_vars
Same == rep = d
NothingBad == bad = "no"
Unique == \A x, y \in DOMAIN d.tb : x # y => d.tb[x] # d.tb[y]
=============================================================================
