------------------------------ MODULE Multipart ------------------------------
(* C15: the bytes of a multipart/form-data body and the parts they carry.     *)
EXTENDS Bytes, TLC
CRLF == <<CR, LF>>
Dashes == <<DASH, DASH>>

\* [l |-> header lines, v |-> content] -> bytes
RECURSIVE RenderLines(_), Render(_, _)
RenderLines(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o CRLF \o RenderLines(Tail(ls))
Render(parts, bnd) ==
    IF parts = <<>> THEN Dashes \o bnd \o Dashes
    ELSE Dashes \o bnd \o CRLF \o RenderLines(Head(parts).l) \o CRLF \o Head(parts).v \o CRLF \o Render(Tail(parts), bnd)

\* parameters of a header value: pieces between the ';' that are not quoted
Quotes(s, i) == Cardinality({k \in 1..(i - 1) : s[k] = DQUOTE})
RECURSIVE Params(_, _)
Params(s, i) == LET P == {k \in i..Len(s) : s[k] = SEMI /\ Quotes(s, k) % 2 = 0}
                IN  IF P = {} THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, Least(P) - 1)>> \o Params(s, Least(P) + 1)
Unquote(s) == IF Len(s) >= 2 /\ s[1] = DQUOTE /\ s[Len(s)] = DQUOTE THEN SubSeq(s, 2, Len(s) - 1) ELSE s
Param(s, name) ==
    LET ps == Params(s, 1)
        S  == {i \in DOMAIN ps : Lower(Trim(Cut(Trim(ps[i]), EQ).k)) = name}
    IN  IF S = {} THEN [h |-> FALSE, v |-> <<>>] ELSE [h |-> TRUE, v |-> Unquote(Cut(Trim(ps[Least(S)]), EQ).v)]

nDisposition == <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>
nName == <<110,97,109,101>>
nFilename == <<102,105,108,101,110,97,109,101>>
Disposition(ls) == LET S == {i \in DOMAIN ls : Lower(Cut(ls[i], COLON).k) = nDisposition}
                   IN  IF S = {} THEN <<>> ELSE Trim(Cut(ls[Most(S)], COLON).v)
NameOf(ls) == Param(Disposition(ls), nName)
FileOf(ls) == Param(Disposition(ls), nFilename)

-----------------------------------------------------------------------------
(* The scanner of the implementation, line by line over a body; the model     *)
(* MCMultipart checks that it undoes Render.                                  *)
\* a line is everything up to a line feed, without the carriage return before it
StripCR(s) == IF Ends(s, <<CR>>) THEN Take(s, Len(s) - 1) ELSE s
StripNL(s) == IF Ends(s, CRLF) THEN Take(s, Len(s) - 2) ELSE IF Ends(s, <<LF>>) THEN Take(s, Len(s) - 1) ELSE s
RECURSIVE Scan(_, _, _, _, _, _)
\* body, boundary, state (1 outside, 2 headers, 3 content), header lines, content so far, parts so far
Scan(b, bnd, st, ls, c, acc) ==
    IF b = <<>> THEN [ok |-> FALSE, parts |-> acc]
    ELSE LET k == Idx(b, LF, 1)
             raw == IF k = 0 THEN b ELSE Take(b, k - 1)
             line == StripCR(raw)
             rest == IF k = 0 THEN <<>> ELSE Drop(b, k)
             open == line = Dashes \o bnd
             close == line = Dashes \o bnd \o Dashes
         IN  CASE st = 1 /\ open -> Scan(rest, bnd, 2, <<>>, <<>>, acc)
               [] st = 1 /\ close -> [ok |-> TRUE, parts |-> acc]
               [] st = 1 -> [ok |-> FALSE, parts |-> acc]
               [] st = 2 /\ line = <<>> -> Scan(rest, bnd, 3, ls, <<>>, acc)
               [] st = 2 -> Scan(rest, bnd, 2, Append(ls, line), <<>>, acc)
               [] st = 3 /\ open -> Scan(rest, bnd, 2, <<>>, <<>>, Append(acc, [l |-> ls, v |-> StripNL(c)]))
               [] st = 3 /\ close -> [ok |-> TRUE, parts |-> Append(acc, [l |-> ls, v |-> StripNL(c)])]
               [] OTHER -> Scan(rest, bnd, 3, ls, c \o raw \o <<LF>>, acc)
Parse(b, bnd) == Scan(b, bnd, 1, <<>>, <<>>, <<>>)

\* a content is well-formed for a boundary if none of its lines begins with the delimiter
RECURSIVE LinesClear(_, _)
LinesClear(c, d) == ~Starts(c, d) /\ (LET k == Idx(c, LF, 1) IN k = 0 \/ LinesClear(Drop(c, k), d))
WellFormed(c, bnd) == LinesClear(c, Dashes \o bnd)
=============================================================================
