------------------------------- MODULE Request -------------------------------
(* C08, C09, C14, C15: what a request means, as a function of its bytes.      *)
(*                                                                            *)
(* `Verdict` says what has to happen with a request: which handler observes   *)
(* what, or which errors apply.  A grey area (`grey`) leaves open what is     *)
(* observed, never that there is one answer and that others are served.       *)
EXTENDS Bytes, TLC

Methods == {<<79,80,84,73,79,78,83>>, <<71,69,84>>, <<80,79,83,84>>, <<80,85,84>>, <<68,69,76,69,84,69>>, <<72,69,65,68>>,
            <<84,82,65,67,69>>, <<67,79,78,78,69,67,84>>, <<80,65,84,67,72>>, <<76,73,78,75>>, <<85,78,76,73,78,75>>, <<80,82,73>>}
WithBody == {<<80,79,83,84>>, <<80,85,84>>, <<80,65,84,67,72>>}
V10 == <<72,84,84,80,47,49,46,48>>
V11 == <<72,84,84,80,47,49,46,49>>
nHost == <<104,111,115,116>>
nCookie == <<99,111,111,107,105,101>>
nAuth == <<97,117,116,104,111,114,105,122,97,116,105,111,110>>
nLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
nType == <<99,111,110,116,101,110,116,45,116,121,112,101>>
nConn == <<99,111,110,110,101,99,116,105,111,110>>
nUpgrade == <<117,112,103,114,97,100,101>>
Standard == {nHost, nCookie, nAuth, nLength, nType, nConn, nUpgrade}
tUpgrade == nUpgrade
tWebsocket == <<119,101,98,115,111,99,107,101,116>>
tKeepAlive == <<107,101,101,112,45,97,108,105,118,101>>
tBasic == <<98,97,115,105,99,32>>
tForm == <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,119,119,119,45,102,111,114,109,45,117,114,108,101,110,99,111,100,101,100>>
tMultipart == <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97>>

-----------------------------------------------------------------------------
\* The head ends with the first empty line; its end, 0 if it is not complete.
HeadEnd(b) ==
    LET E == {i \in DOMAIN b : b[i] = LF /\ ((i > 1 /\ b[i - 1] = LF) \/ (i > 2 /\ b[i - 1] = CR /\ b[i - 2] = LF))}
    IN  IF E = {} THEN 0 ELSE Least(E)

\* the lines of a complete head without the final empty one; a carriage return before the line feed belongs to it
Lines(h) == LET ls == Split(h, LF)
                n == Len(ls) - 2    \* "...\n" "\n" -> the last two pieces are the blank line and nothing
            IN  TLCEval([i \in 1..n |-> IF Ends(ls[i], <<CR>>) THEN Take(ls[i], Len(ls[i]) - 1) ELSE ls[i]])

\* the pairs of a query string or form
Pairs(s) == LET ps == NonEmpty(Split(s, AMP)) IN TLCEval([i \in DOMAIN ps |-> LET c == Cut(ps[i], EQ) IN [n |-> c.k, v |-> c.v]])

\* target -> path and query, without the fragment
Target(t) == LET a == Cut(t, HASH).k  c == Cut(a, QMARK) IN [path |-> c.k, query |-> c.v]

Header(line) == LET c == Cut(line, COLON) IN [n |-> c.k, v |-> Trim(c.v)]

Names(hs) == {hs[i].n : i \in DOMAIN hs}
\* value of the standard header `name` (in lower case), [f |-> found, v]; the last of a repeated name counts
Std(hs, name) == LET S == {i \in DOMAIN hs : Lower(hs[i].n) = name}
                 IN  IF S = {} THEN [f |-> FALSE, v |-> <<>>] ELSE [f |-> TRUE, v |-> hs[Most(S)].v]
\* one standard header in two spellings: which one counts is left open
Ambiguous(hs) == \E name \in Standard : Cardinality({n \in Names(hs) : Lower(n) = name}) > 1

\* "a=b; c=d" -> cookies; a piece without '=' is an error
CookiePieces(v) == LET ps == Split(v, SEMI) IN NonEmpty(TLCEval([i \in DOMAIN ps |-> Trim(ps[i])]))
Cookies(v) == LET ps == CookiePieces(v) IN TLCEval([i \in DOMAIN ps |-> [n |-> Cut(ps[i], EQ).k, v |-> Cut(ps[i], EQ).v]])
CookiesBroken(v) == LET ps == CookiePieces(v) IN \E i \in DOMAIN ps : ~Has(ps[i], EQ)

NoUser == [h |-> FALSE, n |-> <<>>, p |-> <<>>]
IsBasic(v) == Len(v) >= 6 /\ Lower(Take(v, 6)) = tBasic
Creds(v) == LET d == Cut(B64Dec(Drop(v, 6)), COLON) IN [h |-> TRUE, n |-> d.k, p |-> d.v]
\* blanks around the base64 text, and bits of its last character that carry nothing, may be accepted or not
CredsOpen(v) == LET b == Drop(v, 6) IN Trim(b) # b \/ (B64Lax(b) /\ ~B64Valid(b))
CredsBroken(v) == \/ ~B64Lax(Drop(v, 6))
                  \/ LET d == Cut(B64Dec(Drop(v, 6)), COLON) IN ~d.f \/ d.k = <<>> \/ ~Utf8(d.k) \/ ~Utf8(d.v)

Tokens(v) == LET ps == Split(v, COMMA) IN {Lower(Trim(ps[i])) : i \in DOMAIN ps}
WebSocket(hs) == LET c == Std(hs, nConn)  u == Std(hs, nUpgrade)
                 IN  c.f /\ u.f /\ tUpgrade \in Tokens(c.v) /\ Lower(u.v) = tWebsocket
KeepAlive(hs) == Std(hs, nConn).f /\ Std(hs, nConn).v = tKeepAlive

MediaType(hs) == Trim(Cut(Std(hs, nType).v, SEMI).k)

\* The test server's routes: /a, /a/:x and /f/b/c for every method. 0: no route
Route(path) ==
    LET s == Split(path, SLASH)
        a == <<97>>  f == <<102>>  b == <<98>>  c == <<99>>
    IN  IF Len(s) < 2 \/ s[1] # <<>> THEN 0
        ELSE LET p == Tail(s) IN
             IF p = <<a>> THEN 1 ELSE IF Len(p) = 2 /\ p[1] = a THEN 2 ELSE IF p = <<f, b, c>> THEN 3 ELSE 0

-----------------------------------------------------------------------------
\* Content-Length: "none", "ok" (n bytes), "rest" (up to the end of the stream), "bad", "huge", "open" (left open)
Length(hs) ==
    LET c == Std(hs, nLength)
        d == [k |-> "ok", n |-> Num(c.v)]
        minus == <<DASH>>
    IN  IF ~c.f THEN [k |-> "none", n |-> 0]
        ELSE IF Num(c.v) >= 0 THEN d
        ELSE IF AllDigits(c.v) THEN IF Len(c.v) <= 18 THEN [k |-> IF c.v[1] = 48 THEN "open" ELSE "huge", n |-> 0]
                                    ELSE IF c.v[1] \in 50..57 \/ (Len(c.v) > 19 /\ c.v[1] # 48) THEN [k |-> "bad", n |-> 0]
                                    ELSE [k |-> "open", n |-> 0]
        ELSE IF c.v = <<DASH, 49>> THEN [k |-> "rest", n |-> 0]
        ELSE IF Len(c.v) > 1 /\ c.v[1] \in {43, DASH} /\ AllDigits(Tail(c.v))
             THEN [k |-> IF c.v[1] = 43 \/ Num(Tail(c.v)) \in {0, 1} \/ Len(c.v) > 10 THEN "open" ELSE "bad", n |-> 0]
        ELSE [k |-> "bad", n |-> 0]

\* bytes a text is decoded from without loss, and that mean the same to every reasonable parser
Plain(b) == Utf8(b) /\ \A i \in DOMAIN b : b[i] >= 32 \/ b[i] \in {CR, LF, TAB}
StrayCR(h) == \E i \in DOMAIN h : h[i] = CR /\ ~(i < Len(h) /\ h[i + 1] = LF)
OddHeader(line) == ~Has(line, COLON) \/ IsBlank(line[1]) \/ LET n == Cut(line, COLON).k IN n = <<>> \/ \E i \in DOMAIN n : IsBlank(n[i])

\* What becomes of a request: [must: answers that apply, may: further answers that are acceptable,
\*  grey: a normal outcome is not specified in detail, need: body bytes of the request, w: the observation]
NoObs == [slot |-> 0]
Fault(S, M) == [must |-> S, may |-> M, grey |-> FALSE, need |-> 0, body |-> FALSE, keep |-> FALSE, obs |-> NoObs]

Verdict(h, avail, fin) ==
    IF h = <<>> THEN Fault({}, {})
    ELSE IF HeadEnd(h) = 0 THEN Fault({400}, {})
    ELSE
    LET ls  == Lines(h)
        rl  == ls[1]
        ps  == Split(rl, SP)
        hl  == TLCEval(Tail(ls))
        odd == StrayCR(h) \/ ~Plain(h) \/ (\E i \in DOMAIN hl : OddHeader(hl[i])) \/ (ps[1] = <<>>)
        t   == IF Len(ps) >= 2 THEN Target(ps[2]) ELSE [path |-> <<>>, query |-> <<>>]
        hs  == TLCEval([i \in DOMAIN hl |-> Header(hl[i])])
        lineF == IF Len(ps) = 1 THEN {400}
                 ELSE (IF ps[1] \notin Methods /\ ps[1] # <<>> THEN {405} ELSE {})
                      \cup (IF Len(ps) # 3 THEN {400} ELSE IF ps[3] \notin {V10, V11} THEN {505} ELSE {})
        route == IF Len(ps) >= 2 THEN Route(t.path) ELSE 0
        len == Length(hs)
        entity == ps[1] \in WithBody
        auth == Std(hs, nAuth).v
        creds == IF ~IsBasic(auth) THEN "none" ELSE IF CredsOpen(auth) THEN "open" ELSE IF CredsBroken(auth) THEN "broken" ELSE "ok"
        headF == (IF route = 0 THEN {404} ELSE {})
                 \cup (IF ~Std(hs, nHost).f THEN {417} ELSE {})
                 \cup (IF Std(hs, nCookie).f /\ CookiesBroken(Std(hs, nCookie).v) THEN {400} ELSE {})
                 \cup (IF creds = "broken" THEN {400} ELSE {})
                 \cup (IF entity /\ len.k = "bad" THEN {411} ELSE {})
                 \cup (IF entity /\ ((len.k = "ok" /\ avail < len.n) \/ len.k = "huge") THEN {400} ELSE {})
        open == (IF entity /\ len.k = "open" THEN {400, 411} ELSE {})
                \cup (IF creds = "open" THEN {400} ELSE {})
                \cup (IF ~entity /\ (len.k \notin {"none", "ok"} \/ avail < len.n) THEN {400, 411} ELSE {})
    IN  [must |-> IF Len(ps) = 1 THEN lineF ELSE lineF \cup headF,
         may  |-> IF odd \/ Ambiguous(hs) THEN {400, 404, 405, 411, 417, 505} ELSE open,
         grey |-> odd \/ Ambiguous(hs) \/ len.k = "open" \/ creds = "open",
         need |-> IF len.k = "ok" THEN len.n ELSE IF len.k = "rest" THEN avail ELSE 0,
         body |-> entity,
         keep |-> KeepAlive(hs),
         obs  |-> [slot |-> route, path |-> t.path, hdr |-> LastOf(hs), params |-> Pairs(t.query),
                   cookies |-> IF Std(hs, nCookie).f THEN Cookies(Std(hs, nCookie).v) ELSE <<>>,
                   user |-> IF creds = "ok" THEN Creds(auth) ELSE NoUser,
                   ws |-> WebSocket(hs), type |-> MediaType(hs)]]
=============================================================================
