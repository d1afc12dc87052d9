------------------------------- MODULE Cookie -------------------------------
(* C19: Set-Cookie values, as bytes. A cookie is a record of name, value and   *)
(* attributes; an absent attribute is <<>>, a present one <<its text>>.        *)
EXTENDS Bytes, TLC
tPath == <<112, 97, 116, 104>>
tDomain == <<100, 111, 109, 97, 105, 110>>
tExpires == <<101, 120, 112, 105, 114, 101, 115>>
tMaxAge == <<109, 97, 120, 45, 97, 103, 101>>
tSecure == <<115, 101, 99, 117, 114, 101>>
tHttpOnly == <<104, 116, 116, 112, 111, 110, 108, 121>>
tSameSite == <<115, 97, 109, 101, 115, 105, 116, 101>>
tNone == <<110, 111, 110, 101>>
tStrict == <<115, 116, 114, 105, 99, 116>>
tLax == <<108, 97, 120>>
cPath == <<80, 97, 116, 104>>
cDomain == <<68, 111, 109, 97, 105, 110>>
cMaxAge == <<77, 97, 120, 45, 65, 103, 101>>
cSecure == <<83, 101, 99, 117, 114, 101>>
cHttpOnly == <<72, 116, 116, 112, 79, 110, 108, 121>>
cSameSite == <<83, 97, 109, 101, 83, 105, 116, 101>>
cNone == <<78, 111, 110, 101>>
cStrict == <<83, 116, 114, 105, 99, 116>>
cLax == <<76, 97, 120>>
Plain(n, v) == [n |-> n, v |-> v, path |-> <<>>, domain |-> <<>>, expires |-> FALSE, maxage |-> <<>>,
                secure |-> FALSE, httponly |-> FALSE, samesite |-> ""]

\* writing: the attributes that must appear beside name=value (an expiry instant aside)
With(k, v) == k \o <<EQ>> \o v
Attributes(c) ==
    {With(cPath, x) : x \in {c.path[i] : i \in DOMAIN c.path}} \cup {With(cDomain, x) : x \in {c.domain[i] : i \in DOMAIN c.domain}}
    \cup {With(cMaxAge, x) : x \in {c.maxage[i] : i \in DOMAIN c.maxage}}
    \cup (IF c.secure THEN {cSecure} ELSE {}) \cup (IF c.httponly THEN {cHttpOnly} ELSE {})
    \cup (CASE c.samesite = "none" -> {With(cSameSite, cNone)} [] c.samesite = "strict" -> {With(cSameSite, cStrict)}
            [] c.samesite = "lax" -> {With(cSameSite, cLax)} [] OTHER -> {})
Pieces(raw) == LET ps == Split(Trim(raw), SEMI) IN [i \in DOMAIN ps |-> Trim(ps[i])]
IsExpires(p) == LET k == Cut(p, EQ) IN k.f /\ SameText(k.k, tExpires)
\* text is how cookie c appears on the wire
Written(c, text) ==
    LET ps == Pieces(text)
        rest == SelectSeq(Tail(ps), LAMBDA p : ~IsExpires(p))
        dates == SelectSeq(Tail(ps), IsExpires)
    IN  /\ ps[1] = With(c.n, c.v)
        /\ {rest[i] : i \in DOMAIN rest} = Attributes(c) /\ Len(rest) = Cardinality(Attributes(c))
        /\ Len(dates) = (IF c.expires THEN 1 ELSE 0)

\* reading: name=value first, then attributes in any order and case, later ones replacing earlier ones
Integer(s) == AllDigits(IF Starts(s, <<DASH>>) THEN Tail(s) ELSE s)
\* an IMF date, checked for its shape only: Sun, 06 Nov 1994 08:49:37 GMT
Days == {<<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>}
DateShape(s) == /\ Len(s) = 29 /\ Take(s, 3) \in Days /\ s[4] = COMMA /\ SubSeq(s, 26, 29) = <<SP, 71, 77, 84>>
                /\ \A i \in {6, 7, 13, 14, 15, 16, 18, 19, 21, 22, 24, 25} : IsDigit(s[i])
                /\ s[20] = COLON /\ s[23] = COLON
\* an integer as it is written again: without leading zeros
RECURSIVE Bare(_)
Bare(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Bare(Tail(s)) ELSE s
Canon(s) == IF Starts(s, <<DASH>>) THEN <<DASH>> \o Bare(Tail(s)) ELSE Bare(s)
Attribute(c, p) ==
    LET x == Cut(p, EQ)  k == Lower(x.k)  v == IF x.f THEN <<x.v>> ELSE <<>>
    IN CASE k = tPath -> [c EXCEPT !.path = v]
         [] k = tDomain -> [c EXCEPT !.domain = v]
         [] k = tMaxAge -> [c EXCEPT !.maxage = IF x.f THEN <<Canon(x.v)>> ELSE <<>>]
         [] k = tExpires -> [c EXCEPT !.expires = x.f]
         [] k = tSecure -> [c EXCEPT !.secure = TRUE]
         [] k = tHttpOnly -> [c EXCEPT !.httponly = TRUE]
         [] k = tSameSite -> [c EXCEPT !.samesite = LET w == Lower(x.v) IN
                IF ~x.f THEN "" ELSE IF w = tNone THEN "none" ELSE IF w = tStrict THEN "strict" ELSE IF w = tLax THEN "lax" ELSE ""]
         [] OTHER -> c
RECURSIVE Fold(_, _)
Fold(c, ps) == IF ps = <<>> THEN c ELSE Fold(Attribute(c, Head(ps)), Tail(ps))
Read(raw) == LET ps == Pieces(raw)  nv == Cut(ps[1], EQ) IN Fold(Plain(nv.k, nv.v), Tail(ps))
\* a piece that makes the header unusable
BadPiece(p) == LET x == Cut(p, EQ)  k == Lower(x.k)
               IN x.f /\ ((k = tMaxAge /\ ~Integer(x.v)) \/ (k = tExpires /\ ~DateShape(x.v)))
Unusable(raw) == LET ps == Pieces(raw) IN \E i \in 2..Len(ps) : BadPiece(ps[i])
\* a cookie that can be written and read back: no separators where they would end the field early
Clean(s) == ~Has(s, SEMI) /\ Trim(s) = s
Writable(c) == c.n # <<>> /\ Clean(c.n) /\ ~Has(c.n, EQ) /\ Clean(c.v)
               /\ (\A i \in DOMAIN c.path : Clean(c.path[i]))
               /\ (\A i \in DOMAIN c.domain : Clean(c.domain[i]))
=============================================================================
