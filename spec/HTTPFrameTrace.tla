--------------------------- MODULE HTTPFrameTrace ---------------------------
(* What the real parser made of byte streams, chunk by chunk, against the byte machine; composed messages parsed back; and
   bytes through sockets with partial transfers.                                                                       *)
EXTENDS TraceLib, HTTPFrame
VARIABLES tr, l, buf,    \* received and not yet consumed
          guard, pipe
tvars == <<tr, l, buf, guard, pipe>>
Ev == Traces[tr][l]
Is(e) == l <= Len(Traces[tr]) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
TraceInit == tr \in DOMAIN Traces /\ l = 1 /\ buf = <<>> /\ guard = FALSE /\ pipe = <<>>
RECURSIVE Feed(_, _)
Feed(s, b) == IF s.done \/ b = <<>> THEN [s |-> s, rest |-> b] ELSE Feed(Byte(s, Head(b)), Tail(b))
\* The first message of the buffer, if complete, together with the rest of its last line end.
First == LET r == Feed(Fresh, buf)
             extra == IF r.s.done /\ r.rest # <<>> /\ r.s.eol > 0 /\ r.s.ph # "body" /\ IsEOL(Head(r.rest)) /\ Head(r.rest) # r.s.eol THEN 1 ELSE 0
         IN [r.s EXCEPT !.n = @ + extra]
\* a blank line after the method line has begun
HasBlankLine == \E i \in 1..(Len(buf) - 1) : /\ \E k \in 1..(i - 1) : ~IsEOL(buf[k])
                                             /\ (buf[i] = LF /\ buf[i + 1] = LF) \/ (i + 3 <= Len(buf) /\ SubSeq(buf, i, i + 3) = <<CR, LF, CR, LF>>)
TraceNext ==
    \/ Is("begin") /\ buf' = <<>> /\ pipe' = <<>> /\ guard' = Ev.guard
    \/ Is("chunk") /\ buf' = buf \o Ev.b /\ UNCHANGED <<guard, pipe>>
    \/ /\ Is("parse")
       /\ LET f == First IN
          IF f.done /\ (Ev.may \/ ~guard)
          THEN /\ Ev.n = f.n /\ Ev.m = f.m /\ SameH(Ev.h, f.h) /\ Ev.c = f.c
               /\ buf' = SubSeq(buf, f.n + 1, Len(buf))
          ELSE \* incomplete; or the server's guard asks for the whole blank line first
               /\ Ev.n = 0 /\ (f.done => ~HasBlankLine) /\ Ev.m = <<>> /\ Ev.h = <<>> /\ Ev.c = <<>> /\ UNCHANGED buf
       /\ UNCHANGED <<guard, pipe>>
    \/ /\ Is("round")
       /\ Ev.n = Ev.len /\ Ev.m2 = Ev.m /\ Ev.c2 = Ev.c
       /\ LET want == DelH(Ev.h, S_CL)
              got == DelH(Ev.h2, S_CL)
          IN SameH(want, got) /\ Num(GetH(Ev.h2, S_CL), 0) = Len(Ev.c)
       /\ UNCHANGED <<buf, guard, pipe>>
    \/ Is("sent") /\ Ev.alive /\ pipe' = pipe \o Ev.b /\ Ev.left <= Len(pipe') /\ Ev.empty = (Ev.left = 0) /\ UNCHANGED <<buf, guard>>
    \/ Is("got") /\ Ev.alive /\ Len(Ev.b) <= Len(pipe) /\ Ev.b = SubSeq(pipe, 1, Len(Ev.b))
                 /\ pipe' = SubSeq(pipe, Len(Ev.b) + 1, Len(pipe)) /\ UNCHANGED <<buf, guard>>
    \/ Is("drained") /\ Ev.left = 0 /\ pipe = <<>> /\ UNCHANGED <<buf, guard, pipe>>
    \/ l = Len(Traces[tr]) + 1 /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
