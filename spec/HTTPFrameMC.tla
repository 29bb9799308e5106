---------------------------- MODULE HTTPFrameMC ----------------------------
(* The framing machine over every short stream of a small alphabet: whatever the split into two reads, the same messages in
   the same order come out, nothing of an incomplete message is consumed.  WHOLE = TRUE plants the mistake of restarting
   the current line at a read.                                                                                        *)
EXTENDS HTTPFrame
CONSTANTS MaxLen, WHOLE
VARIABLES s, msgs, one, ones, len
vars == <<s, msgs, one, ones, len>>
Alphabet == {65, 58, 49, CR, LF}
\* messages here carry a fixed Content-Length header, so that bodies are reached with short streams
Start == [Fresh EXCEPT !.h = <<[n |-> S_CL, v |-> <<49>>]>>]
Init == s = Start /\ msgs = <<>> /\ one = Start /\ ones = <<>> /\ len = 0
Take(st, c) == Byte(st, c)
Next == /\ len < MaxLen /\ len' = len + 1
        /\ \E c \in Alphabet, cut \in BOOLEAN :
             LET a == Take(IF cut /\ WHOLE THEN [s EXCEPT !.line = <<>>] ELSE s, c)
                 b == Take(one, c)
             IN /\ s' = (IF a.done THEN Start ELSE a) /\ msgs' = (IF a.done THEN Append(msgs, <<a.m, a.c>>) ELSE msgs)
                /\ one' = (IF b.done THEN Start ELSE b) /\ ones' = (IF b.done THEN Append(ones, <<b.m, b.c>>) ELSE ones)
Spec == Init /\ [][Next]_vars
SameMessages == msgs = ones
BodyExact == \A i \in DOMAIN msgs : Len(msgs[i][2]) \in {0, 1}
=============================================================================
