------------------------------ MODULE MCAnswer ------------------------------
(* The byte-wise reader of the client against the meaning of the bytes, for    *)
(* responses cut off at any byte and with any byte replaced.                   *)
EXTENDS Answer
CONSTANTS Wide
tOk == <<50,48,48,32,79,75>>
tLen(v) == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>> \o v
LenL(v) == <<99,79,78,116,101,110,116,45,108,101,110,103,116,104,58>> \o v
CRLF == <<CR, LF>>
Msg(v, st, hs, body) == v \o <<SP>> \o st \o CRLF \o Join([i \in DOMAIN hs |-> hs[i] \o CRLF]) \o CRLF \o body
HX == <<88, COLON, SP, 97>>   HY == <<120, COLON, 98, SP>>
Few == {Msg(v11, tOk, <<HX, tLen(<<50>>)>>, <<97, LF, LF>>), Msg(v10, tOk, <<HX, HY, HX>>, <<97, 98>>)}
More == {Msg(v11, st, hs, body) : st \in {tOk, <<52,48,52,32,78,111,116,32,70,111,117,110,100>>, <<50,48,48,32>>},
             hs \in {<<>>, <<LenL(<<51>>)>>, <<tLen(<<48>>), HY>>, <<tLen(<<DASH, 49>>)>>, <<tLen(<<120>>)>>, <<tLen(<<49>>), tLen(<<49>>)>>},
             body \in {<<>>, <<97>>, <<CR, LF, CR, LF, 97>>}}
Base == Few \cup (IF Wide THEN More ELSE {})
Any == {SP, CR, LF, COLON, 48, 50, 97, 200}
VARIABLES msg, pos, phase, tmp, ver, code, hs, out
vars == <<msg, pos, phase, tmp, ver, code, hs, out>>
SwapAt(m) == {[m EXCEPT ![i] = b] : i \in DOMAIN m, b \in Any}
HasBlank(s) == Find(s, <<LF, LF>>, 1) # 0 \/ Find(s, <<LF, CR, LF>>, 1) # 0
Init == /\ msg \in UNION {SwapAt(m) : m \in Base} \cup UNION {{Take(m, n) : n \in 0..Len(m)} : m \in Few \cup More}
        /\ pos = 1 /\ tmp = <<>> /\ ver = <<>> /\ code = 0 /\ hs = <<>> /\ out = <<>>
        /\ phase = IF HasBlank(msg) THEN "version" ELSE "err"
B == msg[pos]
More1 == pos <= Len(msg)
Go(p) == phase' = p
\* status line: version, code, phrase
Line == /\ phase \in {"version", "code", "phrase"} /\ UNCHANGED <<msg, hs, out>> /\ pos' = pos + 1
        /\ IF ~More1 THEN Go("err") /\ UNCHANGED <<tmp, ver, code>>
           ELSE CASE phase = "version" /\ B = SP -> /\ ver' = tmp /\ tmp' = <<>> /\ UNCHANGED code /\ Go(IF tmp \in {v10, v11} THEN "code" ELSE "err")
                  [] phase = "code" /\ B = SP -> /\ code' = Num(tmp) /\ tmp' = <<>> /\ UNCHANGED ver /\ Go(IF Num(tmp) \in DOMAIN Ph THEN "phrase" ELSE "err")
                  [] phase = "phrase" /\ B = CR -> UNCHANGED <<tmp, ver, code>> /\ Go(phase)
                  [] phase = "phrase" /\ B = LF -> UNCHANGED <<ver, code>> /\ tmp' = <<>> /\ Go(IF tmp = Ph[code] THEN "head" ELSE "err")
                  [] B \in {CR, LF} -> UNCHANGED <<tmp, ver, code>> /\ Go("err")
                  [] OTHER -> tmp' = Append(tmp, B) /\ UNCHANGED <<ver, code>> /\ Go(phase)
Headers == /\ phase = "head" /\ UNCHANGED <<msg, ver, code, out>> /\ pos' = pos + 1
           /\ IF ~More1 \/ (B = LF /\ tmp = <<>>) THEN Go("body") /\ UNCHANGED <<tmp, hs>>
              ELSE CASE B = CR -> Go(phase) /\ UNCHANGED <<tmp, hs>>
                     [] B = LF -> /\ Go(phase) /\ tmp' = <<>>
                                  /\ LET c == Cut(tmp, COLON) IN hs' = IF c.f THEN Append(hs, [n |-> c.k, v |-> Trim(c.v)]) ELSE hs
                     [] OTHER -> Go(phase) /\ tmp' = Append(tmp, B) /\ UNCHANGED hs
Whole0(s) == IF AllDigits(s) THEN Num(s) ELSE IF s # <<>> /\ s[1] = DASH /\ AllDigits(Tail(s)) THEN 0 - Num(Tail(s)) ELSE 0 - 9
Body == /\ phase = "body" /\ UNCHANGED <<msg, pos, tmp, ver, code, hs>>
        /\ LET rest == Drop(msg, pos - 1)
               lens == SelectSeq(hs, LAMBDA h : Lower(h.n) = nLength)
               n == IF lens = <<>> THEN 0 - 1 ELSE Whole0(lens[1].v)
           IN  IF n = 0 - 1 THEN out' = rest /\ Go("done")
               ELSE IF n < 0 \/ n > Len(rest) THEN out' = <<>> /\ Go("err")
               ELSE out' = Take(rest, n) /\ Go("done")
Next == Line \/ Headers \/ Body
Spec == Init /\ [][Next]_vars
Agrees == LET m == Meaning(msg) IN
          /\ phase = "done" /\ m.k # "open" => m = [k |-> "ok", v |-> ver, code |-> code, hs |-> hs, body |-> out, more |-> 0]
          /\ phase = "err" => m.k # "ok"
\* a response with an announced length that is cut off is an error, or nothing of it is missing
Announces(h) == \E i \in DOMAIN h : Lower(h[i].n) = nLength /\ Num(h[i].v) >= 0
Whole == \A m \in Few \cup More : LET a == Meaning(m) IN
            a.k = "ok" /\ Announces(a.hs) => \A n \in 0..Len(m) : LET b == Meaning(Take(m, n)) IN b.k = "error" \/ b = a
ASSUME Whole
=============================================================================
