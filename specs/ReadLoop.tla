------------------------------ MODULE ReadLoop ------------------------------
(* C08: reading one request off a stream whose bytes arrive in any pieces.    *)
(*                                                                            *)
(* The implementation reads chunks of at most N bytes until what it has ends  *)
(* a head, takes the bytes behind it as the beginning of the body and reads   *)
(* on up to the announced length.  The invariants say that what is delivered  *)
(* is a function of the bytes alone.                                          *)
EXTENDS Bytes, TLC
CONSTANTS N,        \* size of one read
          MaxHead, MaxBody,
          Overlap   \* how far back the end of the head is looked for in a new chunk (2)
VARIABLES stream, cl, fin, avail, pos, mode, head, body
vars == <<stream, cl, fin, avail, pos, mode, head, body>>
x == 97
Alphabet == {LF, CR, x}
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
EndsAt(s, i) == s[i] = LF /\ ((i > 1 /\ s[i - 1] = LF) \/ (i > 2 /\ s[i - 1] = CR /\ s[i - 2] = LF))
Ends0(s, from) == \E i \in DOMAIN s : i > from /\ EndsAt(s, i)
End(s) == IF Ends0(s, 0) THEN Least({i \in DOMAIN s : EndsAt(s, i)}) ELSE 0

\* One request: a head, complete or not, and at most as many bytes as it announces.
Init == /\ \E h \in Strings(MaxHead), n \in 0..MaxBody, b \in [1..MaxBody -> {LF, x}] :
             /\ stream = h \o SubSeq(b, 1, n)
             /\ End(stream) \in {0, Len(h)}      \* (a body must not be taken for part of an unfinished head)
             /\ (End(h) = 0 => n = 0)
             /\ cl \in (IF End(h) = 0 THEN {0} ELSE n..MaxBody \cup {0 - 1})
        /\ fin \in BOOLEAN
        /\ (fin \/ (End(stream) # 0 /\ cl = Len(stream) - End(stream)))   \* otherwise the client would wait for ever
        /\ avail = 0 /\ pos = 0 /\ mode = "head" /\ head = <<>> /\ body = <<>>

\* the network makes more bytes available
Arrive == avail < Len(stream) /\ \E k \in (avail + 1)..Len(stream) : avail' = k /\ UNCHANGED <<stream, cl, fin, pos, mode, head, body>>
\* a read returns 1..n of the available bytes, or 0 at the end of the stream
Got(n) == IF pos < avail THEN 1..(IF avail - pos < n THEN avail - pos ELSE n)
          ELSE IF fin /\ avail = Len(stream) THEN {0} ELSE {}
Bytes0(k) == SubSeq(stream, pos + 1, pos + k)

Split0(h) == LET e == End(h) IN [h |-> Take(h, e), b |-> IF cl < 0 THEN Drop(h, e) ELSE Take(Drop(h, e), cl)]
ReadHead ==
    /\ mode = "head"
    /\ \E k \in Got(N) :
       IF k = 0 THEN mode' = (IF head = <<>> THEN "nothing" ELSE "incomplete") /\ UNCHANGED <<stream, cl, fin, avail, pos, head, body>>
       ELSE LET h == head \o Bytes0(k)
                from == IF Len(head) > Overlap THEN Len(head) - Overlap ELSE 0
                done == \E i \in DOMAIN h : /\ i > from /\ h[i] = LF
                                            /\ ((i - 1 > from /\ h[i - 1] = LF) \/ (i - 2 > from /\ h[i - 1] = CR /\ h[i - 2] = LF))
            IN  /\ pos' = pos + k
                /\ IF done THEN /\ head' = Split0(h).h /\ body' = Split0(h).b /\ mode' = "body"
                           ELSE head' = h /\ UNCHANGED <<body, mode>>
                /\ UNCHANGED <<stream, cl, fin, avail>>
ReadBody ==
    /\ mode = "body"
    /\ IF cl >= 0 /\ Len(body) = cl THEN mode' = "done" /\ UNCHANGED <<stream, cl, fin, avail, pos, head, body>>
       ELSE \E k \in Got(IF cl < 0 THEN N ELSE IF cl - Len(body) < N THEN cl - Len(body) ELSE N) :
            IF k = 0 THEN mode' = (IF cl < 0 THEN "done" ELSE "incomplete") /\ UNCHANGED <<stream, cl, fin, avail, pos, head, body>>
            ELSE pos' = pos + k /\ body' = body \o Bytes0(k) /\ UNCHANGED <<stream, cl, fin, avail, mode, head>>
Next == Arrive \/ ReadHead \/ ReadBody
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

e0 == End(stream)
Whole == e0 # 0 /\ (cl < 0 \/ Len(stream) - e0 = cl)
Expected == IF stream = <<>> THEN "nothing" ELSE IF Whole THEN "done" ELSE "incomplete"
\* whatever was delivered is what was sent
Exact == mode = "done" => head = Take(stream, e0) /\ body = Drop(stream, e0)
Verdict0 == mode \in {"done", "incomplete", "nothing"} => mode = Expected
\* nothing behind the request is taken from the stream
InBounds == cl >= 0 => Len(body) <= cl
Answers == <>(mode \in {"done", "incomplete", "nothing"})
=============================================================================
