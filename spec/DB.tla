--------------------------------- MODULE DB ---------------------------------
(* Query commands of the DB plugin over two tables, ta and tb: ids (integer primary key) mapped to texts; the texts of tb are
   unique.  A query is a sequence of statements s with fields
     op    "ins" "copy" "upd" "move" "del"  the writes;  "sel" "count" "both" the reads;  "txn" BEGIN, COMMIT...;  "broken" a
           statement SQLite rejects;  "ddl" a write without effect on the rows
     t     the table;  rows  what to insert, a = 0 for an id SQLite picks;  mode  "abort", "ignore" or "replace"
     c, n, txt   the condition: "all", "eq" id = n, "gt" id > n, "txt" text = txt, "none"
     set   new text;  add  append it to the old one;  k  new id, or what to add to ids when copying
     desc  order of the result
   and the query itself says whether it ends in a semicolon, starts with UPDATE or DELETE and mentions WHERE.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MISTAKE
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Holds(s, a, b) == CASE s.c = "all" -> TRUE
                    [] s.c = "eq" -> a = s.n
                    [] s.c = "gt" -> a > s.n
                    [] s.c = "txt" -> b = s.txt
                    [] s.c = "none" -> FALSE
Where(t, s) == {a \in DOMAIN t : Holds(s, a, t[a])}
Less(t, S) == [a \in DOMAIN t \ S |-> t[a]]
Put(t, a, b) == [x \in DOMAIN t \cup {a} |-> IF x = a THEN b ELSE t[x]]
Clash(which, t, a, b) == {x \in DOMAIN t : x = a \/ (which = "tb" /\ t[x] = b)}
Fail(d) == [ok |-> FALSE, d |-> d]
Good(d, which, t) == [ok |-> TRUE, d |-> [d EXCEPT ![which] = t]]
RECURSIVE Insert(_, _, _, _)
Insert(d, which, rows, mode) ==
    IF rows = <<>> THEN [ok |-> TRUE, d |-> d]
    ELSE LET t == d[which]
             a == IF rows[1].a = 0 THEN Max(DOMAIN t) + 1 ELSE rows[1].a
             cl == Clash(which, t, a, rows[1].b)
         IN IF cl # {} /\ mode = "abort" THEN Fail(d)
            ELSE Insert(IF cl # {} /\ mode = "ignore" THEN d ELSE [d EXCEPT ![which] = Put(Less(t, cl), a, rows[1].b)], which, Tail(rows), mode)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == Max(S) IN Append(Sorted(S \ {m}), m)
Reverse(q) == [k \in DOMAIN q |-> q[(Len(q) + 1) - k]]
Other(w) == IF w = "ta" THEN "tb" ELSE "ta"
Upd(d, s) == LET t == d[s.t]
                 S == Where(t, s)
             IN IF s.t = "tb" /\ S # {} /\ (Cardinality(S) > 1 \/ \E x \in DOMAIN t \ S : t[x] = s.set) THEN Fail(d)
                ELSE Good(d, s.t, [a \in DOMAIN t |-> IF a \in S THEN (IF s.add THEN t[a] \o s.set ELSE s.set) ELSE t[a]])
Move(d, s) == LET t == d[s.t]
                  S == Where(t, s)
              IN IF S # {} /\ (Cardinality(S) > 1 \/ s.k \in DOMAIN t \ S) THEN Fail(d)
                 ELSE IF S = {} THEN [ok |-> TRUE, d |-> d]
                 ELSE Good(d, s.t, LET a == CHOOSE a \in S : TRUE IN Put(Less(t, {a}), s.k, t[a]))
Copy(d, s) == LET o == d[Other(s.t)]
                  ids == Sorted(Where(o, s))
              IN Insert(d, s.t, [k \in DOMAIN ids |-> [a |-> ids[k] + s.k, b |-> o[ids[k]]]], s.mode)
Do(d, s) == CASE s.op = "ins" -> Insert(d, s.t, s.rows, s.mode)
              [] s.op = "copy" -> Copy(d, s)
              [] s.op = "upd" -> Upd(d, s)
              [] s.op = "move" -> Move(d, s)
              [] s.op = "del" -> Good(d, s.t, Less(d[s.t], Where(d[s.t], s)))
              [] OTHER -> [ok |-> TRUE, d |-> d]
Writes(s) == s.op \in {"ins", "copy", "upd", "move", "del", "ddl"}
Row(a, b) == <<ToString(a), b>>
Answer(d, s) ==
    LET ids == Sorted(Where(d[s.t], s))
        o == Sorted(Where(d[Other(s.t)], s))
        of(w, q) == [k \in DOMAIN q |-> Row(q[k], d[w][q[k]])]
    IN CASE s.op = "sel" -> of(s.t, IF s.desc THEN Reverse(ids) ELSE ids)
         [] s.op = "count" -> <<<<ToString(Len(ids))>>>>
         [] s.op = "both" -> of(s.t, ids) \o of(Other(s.t), o)
RECURSIVE All(_, _)
All(d, ss) == IF ss = <<>> THEN [ok |-> TRUE, d |-> d]
              ELSE LET r == Do(d, ss[1]) IN IF r.ok THEN All(r.d, Tail(ss)) ELSE IF MISTAKE = "keepPartial" THEN [r EXCEPT !.ok = FALSE] ELSE r
Refused(q) == \/ ~q.semi
              \/ \E k \in DOMAIN q.ss : q.ss[k].op \in {"txn", "broken"}
IsWrite(q) == IF MISTAKE = "firstOnly" THEN Writes(q.ss[1]) ELSE \E k \in DOMAIN q.ss : Writes(q.ss[k])
NoWhere(q) == q.danger /\ ~q.where /\ ~q.nowhere /\ MISTAKE # "anyDelete"
\* What a query does: whether it is accepted, the tables afterwards, whether something is replicated
Run(d, q) == IF Refused(q) THEN [ok |-> FALSE, d |-> d, kind |-> "refused"]
             ELSE IF ~IsWrite(q) THEN [ok |-> TRUE, d |-> IF MISTAKE = "firstOnly" THEN All(d, q.ss).d ELSE d, kind |-> "read"]
             ELSE IF NoWhere(q) THEN [ok |-> FALSE, d |-> d, kind |-> "refused"]
             ELSE LET r == All(d, q.ss) IN IF r.ok THEN [ok |-> TRUE, d |-> r.d, kind |-> "write"]
                                           ELSE [ok |-> FALSE, d |-> IF MISTAKE = "keepPartial" THEN r.d ELSE d, kind |-> "refused"]
=============================================================================
