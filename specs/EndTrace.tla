------------------------------ MODULE EndTrace ------------------------------
(* C25: URLs fetched with the library's client from the library's server: what *)
(* the handlers saw is what the URL says, what the client reports is what the  *)
(* handler composed.                                                           *)
EXTENDS Response, Json, IOUtils
U == INSTANCE Url
Q == INSTANCE Request
C == INSTANCE Cookie
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Flag(w) == bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C25", why |-> w])
Range(s) == {s[i] : i \in DOMAIN s}
CRLF == <<CR, LF>>
tHost == <<72,111,115,116,58,32>>
tAuth == <<65,117,116,104,111,114,105,122,97,116,105,111,110,58,32>>
Authority(p) == p.host \o <<COLON>> \o Dec(p.port)
\* the request for a URL
Asking(p) == U!tGet \o <<SP>> \o p.target \o <<SP>> \o Q!V11 \o CRLF \o tHost \o Authority(p) \o CRLF
             \o (IF p.cred = <<>> THEN <<>> ELSE tAuth \o U!tBasic \o B64Enc(p.cred[1]) \o CRLF) \o CRLF
Answers(names, ps) == LET L == LastOf(ps) IN
    {[n |-> n, h |-> \E x \in L : x.n = n, v |-> IF \E x \in L : x.n = n THEN <<(CHOOSE x \in L : x.n = n).v>> ELSE <<>>] : n \in Range(names)}
PieceAfter(path) == LET s == Split(path, SLASH) IN <<s[Len(s)]>>
Saw(p, w, o) ==
    If(o.slot # w.slot, "route") \cup If(o.path # w.path, "path")
    \cup If(Range(o.params) # Answers(E.names, w.params) \/ o.pc # Cardinality(Q!Names(w.params)), "query")
    \cup If(o.user # w.user, "credentials") \cup If(o.host # <<Authority(p)>>, "host") \cup If(o.chost # "127.0.0.1", "client")
    \cup If(w.slot = 2 /\ o.field # PieceAfter(w.path), "field")
Own == {"Content-Length", "Connection"}
\* headers as reported: a sequence of [n, vs]
GotNames(hs) == {hs[i].n : i \in DOMAIN hs} \ Own
GotOf(hs, n) == LET m == SelectSeq(hs, LAMBDA h : h.n = n) IN IF Len(m) = 1 THEN m[1].vs ELSE <<>>
Shows(s, ops) ==
    LET want == Headers(ops, FALSE) IN
    If(s.code # <<>> /\ s.code[1] # StatusOf(ops), "status")
    \cup If(s.ver # <<>> /\ LastOp(ops, "version") # 0 /\ s.ver[1] # VersionOf(ops, ""), "version")
    \cup If(s.hs # <<>> /\ (GotNames(s.hs[1]) # DOMAIN want \ Own \/ \E n \in DOMAIN want \ Own : GotOf(s.hs[1], n) # want[n]), "headers")
Length(s) == If(s.hs # <<>> /\ GotOf(s.hs[1], "Content-Length") # <<ToString(BodyOf(E.ops).len)>>, "length")
Reading(raws, r) ==
    LET wrong == \E i \in DOMAIN raws : C!Unusable(raws[i])
    IN  If(r.panic, "panic in cookies") \cup If(r.ok = wrong, "cookies usable")
        \cup (IF r.ok /\ ~wrong THEN If(Len(r.texts) # Len(raws) \/ (Len(r.texts) = Len(raws) /\ \E i \in DOMAIN raws : ~C!Written(C!Read(raws[i]), r.texts[i])), "cookies") ELSE {})
Init == l = 1 /\ bad = <<>>
Case == E.e = "case" /\ UNCHANGED bad
Get ==
    /\ E.e = "get"
    /\ LET p == U!Parse(E.text)
           v == Q!Verdict(Asking(p), 0, FALSE)
           w == v.obs
       IN  Flag(If(E.r \in {"panic", "hang"}, E.r) \cup
             (IF p.k # "ok" \/ p.port # E.port THEN {"recording"}
              ELSE IF v.must # {}
                   THEN If(E.runs # <<>>, "a handler ran") \cup If(E.r # "ok" \/ (E.show.code # <<>> /\ E.show.code[1] \notin v.must \cup v.may), "no refusal")
              ELSE If(Len(E.runs) # 1, "runs") \cup UNION {Saw(p, w, E.runs[i]) \cup Shows(E.runs[i].draft, E.ops) : i \in DOMAIN E.runs}
                   \cup (IF E.ends = "panic" THEN If(E.r # "err", "accepted")
                         ELSE If(E.r # "ok", "no response")
                              \cup (IF E.r # "ok" THEN {}
                                    ELSE Shows(E.show, E.ops) \cup Length(E.show) \cup If(E.body # BodyOf(E.ops).b, "body") \cup Reading(E.raws, E.cookies)))))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Get)
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
