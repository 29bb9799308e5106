----------------------------- MODULE ServerTrace -----------------------------
(* A recorded run of real servers against what Server.tla promises.  begin.final says what the histories of the nodes hold in the end:
   for each request c that wrote, how many rows (n) and the number of the commit that wrote them (at), in the order of the commits.  *)
EXTENDS TraceLib
VARIABLES tr, l,
          s,        \* request -> the record of its sending
          open,     \* requests not answered yet
          acked,    \* <<c, commit number in the answer>> of the successful ones
          ran,      \* request -> nodes that processed it
          peeked,   \* request -> the commit number at its last execution on the node it was sent to
          fin,      \* request -> what the nodes hold of it in the end
          term, gone, blk  \* nodes asked to end, nodes ended, node -> commit number at which writes are blocked
tvars == <<tr, l, s, open, acked, ran, peeked, fin, term, gone, blk>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
B == Traces[tr][1]
N(c) == IF c \in DOMAIN fin THEN fin[c].n ELSE 0
At(c) == fin[c].at
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ s = <<>> /\ open = {} /\ acked = {} /\ ran = <<>> /\ peeked = <<>> /\ fin = <<>> /\ term = {} /\ gone = {} /\ blk = <<>>
Writes(c) == s[c].kind # "get"
Elsewhere(c) == \E n \in Get(ran, c, {}) : n # s[c].node
\* the outcome reported is the truth
Truth ==
    CASE Ev.cls = "ok" /\ Writes(Ev.c) -> N(Ev.c) = s[Ev.c].rows /\ (N(Ev.c) = 1 => At(Ev.c) <= Ev.count)
                                          /\ (s[Ev.c].node \in DOMAIN blk /\ N(Ev.c) = 1 => At(Ev.c) <= blk[s[Ev.c].node])
      [] Ev.cls = "ok" ->
             /\ N(Ev.c) = 0
             \* a state of the history
             /\ Len(Ev.list) <= Len(B.final) /\ Range0(Ev.list) = {B.final[k].c : k \in 1..Len(Ev.list)}
             \* with the writes the reader was told of
             /\ \A a \in acked : a[2] <= s[Ev.c].dep /\ N(a[1]) = 1 => fin[a[1]].k <= Len(Ev.list)
      [] Ev.cls = "queued" -> s[Ev.c].kind = "queue" /\ (B.ends => N(Ev.c) = 1)
      [] Ev.cls = "timeout" -> N(Ev.c) = 0 \/ Elsewhere(Ev.c)
      [] Ev.cls = "broken" -> Elsewhere(Ev.c) \/ N(Ev.c) = 0
      [] Ev.cls \in {"fail", "refused"} -> N(Ev.c) = 0
TraceNext ==
    \/ Is("begin") /\ fin' = [c \in {B.final[k].c : k \in DOMAIN B.final} |-> B.final[CHOOSE k \in DOMAIN B.final : B.final[k].c = c]]
                   /\ (\A k \in DOMAIN B.final : B.final[k].n = 1 /\ B.final[k].k = k /\ (k > 1 => B.final[k - 1].at < B.final[k].at)) /\ UNCHANGED <<s, open, acked, ran, peeked, term, gone, blk>>
    \/ Is("send") /\ Ev.c \notin DOMAIN s /\ s' = Put(s, Ev.c, Ev) /\ open' = open \cup {Ev.c} /\ UNCHANGED <<acked, ran, peeked, fin, term, gone, blk>>
    \* run only when what it waits for is there
    \/ Is("peek") /\ Ev.c \in DOMAIN s /\ s[Ev.c].dep <= Ev.count /\ peeked' = Put(peeked, Ev.c, Ev.count)
                  /\ (Ev.c \in open \/ s[Ev.c].kind = "queue" \/ Ev.node # s[Ev.c].node)
                  /\ UNCHANGED <<s, open, acked, ran, fin, term, gone, blk>>
    \/ Is("process") /\ Ev.c \in DOMAIN s /\ Writes(Ev.c) /\ ran' = Put(ran, Ev.c, Get(ran, Ev.c, {}) \cup {Ev.node})
                     /\ UNCHANGED <<s, open, acked, peeked, fin, term, gone, blk>>
    \/ Is("rep") /\ Ev.c \in open /\ ~Ev.late /\ Ev.cls \in Range0(s[Ev.c].may) /\ Truth
                 /\ (Ev.cls \in {"ok"} => Ev.c \in DOMAIN peeked /\ peeked[Ev.c] >= s[Ev.c].dep)
                 /\ open' = open \ {Ev.c}
                 /\ acked' = (IF Ev.cls = "ok" /\ Writes(Ev.c) THEN acked \cup {<<Ev.c, Ev.count>>} ELSE acked)
                 /\ UNCHANGED <<s, ran, peeked, fin, term, gone, blk>>
    \* no answer: only what a node told to end had not begun with
    \/ Is("lost") /\ Ev.c \in open /\ s[Ev.c].node \in term /\ Ev.fresh /\ N(Ev.c) = 0 /\ Ev.c \notin DOMAIN peeked
                  /\ open' = open \ {Ev.c} /\ UNCHANGED <<s, acked, ran, peeked, fin, term, gone, blk>>
    \/ Is("term") /\ term' = term \cup {Ev.node} /\ UNCHANGED <<s, open, acked, ran, peeked, fin, gone, blk>>
    \/ Is("exit") /\ Ev.node \in term /\ Ev.ok /\ gone' = gone \cup {Ev.node} /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, blk>>
    \* writes blocked: the answers to the requests, and the commit number that stays
    \/ Is("block") /\ Ev.reply = (IF Ev.node \in DOMAIN blk THEN "400 Already Blocked" ELSE "200 Blocked")
                   /\ blk' = (IF Ev.node \in DOMAIN blk THEN blk ELSE Put(blk, Ev.node, Ev.count))
                   /\ (Ev.node \in DOMAIN blk => Ev.count = blk[Ev.node])
                   /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone>>
    \/ Is("still") /\ Ev.node \in DOMAIN blk /\ Ev.count = blk[Ev.node] /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone, blk>>
    \/ Is("unblock") /\ Ev.node \in DOMAIN blk /\ blk' = [x \in DOMAIN blk \ {Ev.node} |-> blk[x]]
                     /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone>>
    \* an answer to a control command that has to be one of those expected here
    \/ Is("control") /\ Ev.reply \in Range0(Ev.may) /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone, blk>>
    \* every node ends up with the same (unless others went on when it had ended)
    \/ Is("rows") /\ (IF B.ends THEN Ev.final = B.final ELSE Ev.final = SubSeq(B.final, 1, Len(Ev.final))) /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone, blk>>
    \/ Is("end") /\ open = {} /\ term = gone /\ UNCHANGED <<s, open, acked, ran, peeked, fin, term, gone, blk>>
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
