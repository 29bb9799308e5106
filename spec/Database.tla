------------------------------ MODULE Database ------------------------------
(* What a replicated database promises its handles.  Two tables a and b of integer keys and values stand for the data.
   Every transaction works on one version of the data (a snapshot) with its own writes on top; a commit gives the
   transaction the next number and makes its statements the next entry of the journal.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NULL == -999999
Empty == [a |-> <<>>, b |-> <<>>]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Inserts == {"put", "ins", "big"}
Effect(S, o) ==
    IF o.op = "put" \/ o.op = "big" THEN [S EXCEPT ![o.t] = (o.k :> o.v) @@ @]
    ELSE IF o.op = "ins" THEN (IF o.k \in DOMAIN S[o.t] THEN S ELSE [S EXCEPT ![o.t] = (o.k :> o.v) @@ @])
    ELSE IF o.op = "add" THEN (IF o.k \in DOMAIN S[o.t] THEN [S EXCEPT ![o.t][o.k] = @ + o.v] ELSE S)
    ELSE IF o.op = "del" THEN [S EXCEPT ![o.t] = Without(@, o.k)]
    ELSE IF o.op = "heavy" THEN (IF o.k \in DOMAIN S[o.t] THEN [S EXCEPT ![o.t][o.k] = @ + 20000000] ELSE S)
    ELSE S
Changes(S, o) == CASE o.op \in {"put", "ins", "big"} -> TRUE [] o.op = "bad" -> FALSE [] OTHER -> o.k \in DOMAIN S[o.t]
Fails(S, o) == IF o.op = "ins" /\ o.k \in DOMAIN S[o.t] THEN "constraint" ELSE IF o.op = "bad" THEN "false" ELSE "ok"
RECURSIVE Fold(_, _)
Fold(S, ops) == IF ops = <<>> THEN S ELSE Fold(Effect(S, Head(ops)), Tail(ops))
\* The result of statements run one after the other: those done, whether any changed something, how it ended.
RECURSIVE Run(_, _, _)
Run(S, ops, r) ==
    IF ops = <<>> THEN r
    ELSE LET o == Head(ops) IN
         IF Fails(S, o) # "ok" THEN [r EXCEPT !.res = Fails(S, o)]
         ELSE Run(Effect(S, o), Tail(ops), [r EXCEPT !.done = Append(@, o), !.changed = @ \/ Changes(S, o)])
Start == [done |-> <<>>, changed |-> FALSE, res |-> "ok"]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
SameOn(S, T, tables) == \A t \in tables : S[t] = T[t]
\* The rows of a query; W[t] is the set of columns one may see.
All == [a |-> {"k", "v"}, b |-> {"k", "v"}]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Seen(W, t, c, x) == IF c \in W[t] THEN x ELSE NULL
Rows(S, W, q, t, k) ==
    LET keys == Sorted(DOMAIN S[t]) IN
    IF q \in {"get", "pget"} THEN (IF k \in DOMAIN S[t] /\ "k" \in W[t] THEN <<<<Seen(W, t, "v", S[t][k])>>>> ELSE <<>>)
    ELSE IF q = "nget" THEN <<>>
    ELSE IF q = "all" THEN [i \in DOMAIN keys |-> <<Seen(W, t, "k", keys[i]), Seen(W, t, "v", S[t][keys[i]])>>]
    ELSE IF q = "kv" THEN [i \in DOMAIN keys |-> <<Seen(W, t, "k", keys[i])>>]
    ELSE IF q = "cnt" THEN <<<<Len(keys)>>>>
    ELSE IF q = "sub" THEN <<<<IF "v" \in W[t] THEN Cardinality({x \in DOMAIN S[t] : S[t][x] > 0}) ELSE 0>>>>
    ELSE <<>>
\* A view shows nothing the table's whitelist hides (whether the view itself is listed is another matter).
ViewOK(S, W, on, rows) ==
    LET keys == Sorted(DOMAIN S.a) IN
    Len(rows) = Len(keys) /\ \A i \in DOMAIN rows :
        /\ (rows[i][1] = keys[i] /\ (~on \/ "k" \in W.a)) \/ (on /\ rows[i][1] = NULL)
        /\ (rows[i][2] = S.a[keys[i]] /\ (~on \/ "v" \in W.a)) \/ (on /\ rows[i][2] = NULL)
=============================================================================
