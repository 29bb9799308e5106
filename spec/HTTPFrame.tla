----------------------------- MODULE HTTPFrame -----------------------------
(* The framing of messages as a machine that reads one byte at a time:

     message  = blank lines, method line, header lines, blank line, content
     line end = CR LF, LF CR, CR or LF;  content = Content-Length bytes, or chunks when Transfer-Encoding is chunked

   It knows nothing about how bytes are grouped.  A message is complete at the first byte at which all of it is there; the
   line feed of the final CR LF is absorbed with it if it is there, and skipped as a blank line of the next message if it
   comes later (only possible without content).                                                                        *)
EXTENDS Naturals, Integers, Sequences, TLC, SequencesExt
CR == 13
LF == 10
SP == 32
COLON == 58
IsEOL(c) == c = CR \/ c = LF
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(s) == [i \in DOMAIN s |-> Lower(s[i])]
S_CL == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>                    \* content-length
S_TE == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>         \* transfer-encoding
S_CHUNKED == <<99,104,117,110,107,101,100>>
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) = SP THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = SP THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
RECURSIVE FirstAt(_, _, _)
FirstAt(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FirstAt(s, c, i + 1)
RECURSIVE Num(_, _)
Num(s, acc) == IF s = <<>> \/ Head(s) < 48 \/ Head(s) > 57 THEN acc ELSE Num(Tail(s), acc * 10 + Head(s) - 48)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE Lower(c) - 87
RECURSIVE Hex(_, _)
Hex(s, acc) == IF s = <<>> THEN acc ELSE Hex(Tail(s), acc * 16 + HexVal(Head(s)))
IsHex(s) == Len(s) \in 1..8 /\ \A i \in DOMAIN s : (s[i] >= 48 /\ s[i] <= 57) \/ (Lower(s[i]) >= 97 /\ Lower(s[i]) <= 102)
ToDigits(n) == LET Digit(d) == 48 + ((n \div d) % 10)
               IN IF n < 10 THEN <<Digit(1)>> ELSE IF n < 100 THEN <<Digit(10), Digit(1)>>
                  ELSE IF n < 1000 THEN <<Digit(100), Digit(10), Digit(1)>> ELSE <<Digit(1000), Digit(100), Digit(10), Digit(1)>>
\* backslash escapes in header values: \r \n \t (others literally)
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>> ELSE
    IF Head(s) = 92 /\ Len(s) >= 2
    THEN <<CASE s[2] = 114 -> CR [] s[2] = 110 -> LF [] s[2] = 116 -> 9 [] s[2] = 98 -> 8 [] s[2] = 102 -> 12 [] OTHER -> s[2]>> \o Unescape(SubSeq(s, 3, Len(s)))
    ELSE <<Head(s)>> \o Unescape(Tail(s))
\* ---- headers: a sequence of [n, v] sorted by lower-cased name, as the code's table is; the spelling of a name's first use stays
HasH(h, n) == \E i \in DOMAIN h : LowerS(h[i].n) = n
GetH(h, n) == h[CHOOSE i \in DOMAIN h : LowerS(h[i].n) = n].v
SetH(h, n, v) == IF HasH(h, LowerS(n)) THEN [i \in DOMAIN h |-> IF LowerS(h[i].n) = LowerS(n) THEN [h[i] EXCEPT !.v = v] ELSE h[i]]
                 ELSE Append(h, [n |-> n, v |-> v])
DelH(h, n) == SelectSeq(h, LAMBDA x : LowerS(x.n) # n)
SameH(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : a[i] = b[j]
\* ---- the machine.  ph: "blank" before the method line, "line" in a line, "body", "chunk"; eol: the line end just seen, if it may
\* still turn out to have two characters
Fresh == [ph |-> "blank", line |-> <<>>, m |-> <<>>, h |-> <<>>, c |-> <<>>, name |-> <<>>, eol |-> 0, need |-> 0, chunked |-> FALSE, n |-> 0, done |-> FALSE]
HeaderLine(s, ln) ==
    IF ln[1] = SP \/ ln[1] = 9
    THEN IF s.name = <<>> THEN [s EXCEPT !.m = @ \o ln] ELSE [s EXCEPT !.h = SetH(@, s.name, GetH(@, LowerS(s.name)) \o ln)]
    ELSE LET k == FirstAt(ln, COLON, 1)
             nm == Trim(IF k = 0 THEN ln ELSE SubSeq(ln, 1, k - 1))
             v == IF k = 0 THEN <<>> ELSE Trim(SubSeq(ln, k + 1, Len(ln)))
         IN IF nm = <<>> THEN s ELSE [s EXCEPT !.name = nm, !.h = SetH(@, nm, Unescape(v))]
\* a line (without its end) has been read
EndLine(s) ==
    LET ln == s.line
        t == [s EXCEPT !.line = <<>>]
    IN IF ln = <<>>
       THEN IF s.m = <<>> THEN t                                              \* blank lines before the method line
            ELSE IF s.chunked THEN [t EXCEPT !.done = TRUE, !.h = SetH(DelH(@, S_TE), <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>, ToDigits(Len(s.c)))]
            ELSE IF HasH(s.h, S_TE) /\ LowerS(GetH(s.h, S_TE)) = S_CHUNKED THEN [t EXCEPT !.chunked = TRUE]
            ELSE IF Num(GetH(s.h, S_CL), 0) = 0 THEN [t EXCEPT !.done = TRUE]
            ELSE [t EXCEPT !.ph = "body", !.need = Num(GetH(s.h, S_CL), 0)]
       ELSE IF s.m = <<>> THEN [t EXCEPT !.m = Trim(ln)]
       ELSE IF s.chunked
            THEN LET k == FirstAt(ln, 59, 1)
                     hx == IF k = 0 THEN Trim(ln) ELSE SubSeq(TrimL(ln), 1, FirstAt(TrimL(ln), 59, 1) - 1)
                 IN IF IsHex(hx) THEN (IF Hex(hx, 0) = 0 THEN t ELSE [t EXCEPT !.ph = "chunk", !.need = Hex(hx, 0)])
                    ELSE HeaderLine(t, ln)
            ELSE HeaderLine(t, ln)
Byte(s0, c) ==
    LET s == [s0 EXCEPT !.n = @ + 1]
    IN IF s.eol > 0 /\ IsEOL(c) /\ c # s.eol THEN [s EXCEPT !.eol = 0]          \* second character of a line end
       ELSE IF s.ph \in {"body", "chunk"}
            THEN LET t == [s EXCEPT !.eol = 0, !.c = Append(@, c), !.need = @ - 1]
                 IN IF t.need > 0 THEN t
                    ELSE IF s.ph = "body" THEN [t EXCEPT !.done = TRUE]
                    ELSE [t EXCEPT !.ph = "line", !.line = <<>>, !.eol = -1]        \* the end of the line the chunk is on follows
       ELSE IF IsEOL(c)
            THEN IF s.eol = -1 THEN [s EXCEPT !.eol = c]
                 ELSE [EndLine(s) EXCEPT !.eol = c]
            ELSE [s EXCEPT !.line = Append(@, c), !.eol = 0, !.ph = "line"]
=============================================================================
