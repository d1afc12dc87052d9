--------------------------------- MODULE Url ---------------------------------
(* What a URL text means to the client:                                        *)
(*   [http://|https://][user:password@]host[:port][/path][?query][#fragment]   *)
EXTENDS Bytes
tHttp == <<104,116,116,112,58,47,47>>
tHttps == <<104,116,116,112,115,58,47,47>>
tGet == <<71,69,84>>
tBasic == <<66,97,115,105,99,32>>
nAuthority == {SLASH, QMARK, HASH}
Wrong == [k |-> "bad", host |-> <<>>, port |-> 0, target |-> <<>>, cred |-> <<>>]
Unclear == [Wrong EXCEPT !.k = "open"]
PortOf(s) == Num(s)
Parse(u) ==
    LET tls == Starts(u, tHttps)
        rest == IF Starts(u, tHttp) THEN Drop(u, Len(tHttp)) ELSE IF tls THEN Drop(u, Len(tHttps)) ELSE u
        ends == {i \in DOMAIN rest : rest[i] \in nAuthority}
        cut == IF ends = {} THEN Len(rest) ELSE Least(ends) - 1
        auth == Take(rest, cut)
        loc == Drop(rest, cut)
        at == Cut(auth, AT)
        user == Cut(at.k, COLON)
        addr == IF at.f THEN at.v ELSE auth
        hp == Cut(addr, COLON)
        port == IF hp.f THEN PortOf(hp.v) ELSE IF tls THEN 443 ELSE 80
        here == Cut(loc, HASH).k
        path == Cut(here, QMARK)
        target == (IF path.k = <<>> THEN <<SLASH>> ELSE path.k) \o (IF path.f THEN <<QMARK>> \o path.v ELSE <<>>)
    IN  IF \E i \in DOMAIN u : u[i] <= SP \/ u[i] = 127 THEN Wrong          \* blanks and control characters
        ELSE IF at.f /\ (~user.f \/ user.k = <<>>) THEN Wrong               \* no user, or no password
        ELSE IF hp.k = <<>> \/ Has(hp.k, AT) \/ Has(hp.v, AT) THEN Wrong
        ELSE IF hp.f /\ Len(hp.v) > 9 THEN Unclear
        ELSE IF port < 1 \/ port > 65535 THEN Wrong
        ELSE IF at.f /\ Has(user.v, COLON) THEN Unclear                     \* a colon in the password
        ELSE [k |-> "ok", host |-> hp.k, port |-> port, target |-> target, cred |-> IF at.f THEN <<at.k>> ELSE <<>>]
\* the heads of a request: line and fields
RECURSIVE Lines(_)
Lines(s) == LET k == Find(s, <<CR, LF>>, 1)
            IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Lines(Drop(s, k + 1))
Field(line) == LET c == Cut(line, COLON) IN [n |-> Lower(c.k), v |-> Trim(c.v), f |-> c.f]
nHostL == <<104,111,115,116>>
nAuthL == <<97,117,116,104,111,114,105,122,97,116,105,111,110>>
nLenL == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
nChunkL == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
\* what is wrong with the bytes b as the request for a URL read as p
If(c, x) == IF c THEN {x} ELSE {}
Asked(p, b) ==
    LET end == Find(b, <<CR, LF, CR, LF>>, 1)
        ls == Lines(SubSeq(b, 1, end - 1))
        fs == [i \in 1..(Len(ls) - 1) |-> Field(ls[i + 1])]
        all(n) == SelectSeq(fs, LAMBDA x : x.n = n)
        line == tGet \o <<SP>> \o p.target \o <<SP>>
        v == Drop(ls[1], Len(line))
    IN  IF end = 0 THEN {"no complete head"}
        ELSE If(Len(b) # end + 3, "bytes after the head")
             \cup If(~Starts(ls[1], line) \/ v \notin {<<72,84,84,80,47,49,46,48>>, <<72,84,84,80,47,49,46,49>>}, "request line")
             \cup If(\E i \in DOMAIN fs : ~fs[i].f \/ fs[i].n = <<>> \/ Has(fs[i].n, SP) \/ Has(fs[i].v, LF) \/ Has(fs[i].v, CR), "fields")
             \cup If(Len(all(nHostL)) # 1 \/ (Len(all(nHostL)) = 1 /\ all(nHostL)[1].v # p.host \o <<COLON>> \o Dec(p.port)), "Host")
             \cup If(Len(all(nAuthL)) # Len(p.cred) \/ (p.cred # <<>> /\ all(nAuthL) # <<>> /\ all(nAuthL)[1].v # tBasic \o B64Enc(p.cred[1])), "Authorization")
             \cup If(all(nLenL) # <<>> \/ all(nChunkL) # <<>>, "announces a body")
=============================================================================
