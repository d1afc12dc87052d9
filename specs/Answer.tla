------------------------------- MODULE Answer -------------------------------
(* What the bytes a server sent, up to the close, mean to the client.          *)
EXTENDS Bytes, Status
LOCAL INSTANCE TLC
nLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
nChunked == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
nCookie == <<99,111,111,107,105,101>>
v10 == <<72,84,84,80,47,49,46,48>>
v11 == <<72,84,84,80,47,49,46,49>>
RECURSIVE AnsLines(_)
AnsLines(s) == LET k == Find(s, <<CR, LF>>, 1)
               IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o AnsLines(Drop(s, k + 1))
Error == [k |-> "error", v |-> <<>>, code |-> 0, hs |-> <<>>, body |-> <<>>, more |-> 0]
Open == [Error EXCEPT !.k = "open"]
\* the announced lengths; several equal ones are one
Lengths(hs) == {hs[i].v : i \in {j \in DOMAIN hs : Lower(hs[j].n) = nLength}}
Ph == PhraseBytes
\* the bytes b are followed by `bulk` more, of which `more` belong to the body
MeaningOf(b, bulk) ==
    LET end == Find(b, <<CR, LF, CR, LF>>, 1)
        head == SubSeq(b, 1, end - 1)
        rest == Drop(b, end + 3)
        ls == AnsLines(head)
        line == ls[1]
        one == Cut(line, SP)
        two == Cut(one.v, SP)
        code == Num(two.k)
        fields == SelectSeq(TLCEval([i \in 1..(Len(ls) - 1) |-> Cut(ls[i + 1], COLON)]), LAMBDA c : c.f)
        hs == TLCEval([i \in DOMAIN fields |-> [n |-> fields[i].k, v |-> Trim(fields[i].v)]])
        lens == Lengths(hs)
        len == CHOOSE v \in lens : TRUE
        stray(s) == \E i \in DOMAIN s : s[i] \in {CR, LF} /\ ~(s[i] = CR /\ i < Len(s) /\ s[i + 1] = LF) /\ ~(s[i] = LF /\ i > 1 /\ s[i - 1] = CR)
    IN  IF end = 0 THEN (IF Find(b, <<LF, LF>>, 1) # 0 \/ Find(b, <<LF, CR, LF>>, 1) # 0 THEN Open ELSE Error)
        ELSE IF stray(head) \/ Find(head, <<LF, LF>>, 1) # 0 \/ Find(head, <<LF, CR, LF>>, 1) # 0 THEN Open
        ELSE IF one.k \notin {v10, v11} \/ ~two.f THEN Error
        ELSE IF code \in DOMAIN Ph /\ Len(two.k) # 3 THEN Open                      \* 0200
        ELSE IF two.k # <<>> /\ two.k[1] = 43 THEN Open                             \* +200
        ELSE IF code \notin DOMAIN Ph \/ two.v # Ph[code] THEN Error
        ELSE IF ~Utf8(head) THEN Open
        ELSE IF \E i \in DOMAIN ls : i > 1 /\ ls[i] # <<>> /\ IsBlank(ls[i][1]) THEN Open   \* folded lines
        ELSE IF \E i \in DOMAIN hs : Lower(hs[i].n) \in {nChunked, nCookie} \/ hs[i].n # Trim(hs[i].n) THEN Open
        ELSE IF Cardinality(lens) > 1 \/ Cardinality({hs[i].n : i \in {j \in DOMAIN hs : Lower(hs[j].n) = nLength}}) > 1 THEN Open
        ELSE LET ok == [k |-> "ok", v |-> one.k, code |-> code, hs |-> hs, body |-> rest, more |-> bulk] IN
             IF lens = {} \/ len = <<DASH, 49>> THEN ok
             ELSE IF len # <<>> /\ len[1] \in {43, DASH} /\ AllDigits(Tail(len)) /\ (len[1] = 43 \/ Num(Tail(len)) \in {0, 1}) THEN Open
             ELSE IF ~AllDigits(len) THEN Error
             ELSE IF Num(len) = 0 - 1 THEN (IF \A i \in 1..(Len(len) - 9) : len[i] = 48 THEN Open ELSE Error)
             ELSE IF Num(len) > Len(rest) + bulk THEN Error
             ELSE [ok EXCEPT !.body = Take(rest, Num(len)), !.more = IF Num(len) > Len(rest) THEN Num(len) - Len(rest) ELSE 0]
Meaning(b) == MeaningOf(b, 0)
\* the values of a name, in order
Values(hs, n) == LET m == SelectSeq(hs, LAMBDA h : h.n = n) IN TLCEval([i \in DOMAIN m |-> m[i].v])
Names(hs) == {hs[i].n : i \in DOMAIN hs}
=============================================================================
