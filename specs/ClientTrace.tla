----------------------------- MODULE ClientTrace -----------------------------
(* URLs given to the client and the requests a listener saw; responses played  *)
(* to the client and what it reported.                                         *)
EXTENDS Url, Json, IOUtils, TLC
A == INSTANCE Answer
C == INSTANCE Cookie
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
Flag(p, w) == bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> p, why |-> w])
Init == l = 1 /\ bad = <<>>
Case == E.e = "case" /\ UNCHANGED bad
tLocal == <<108,111,99,97,108,104,111,115,116>>
tLoop == <<49,50,55,46,48,46,48,46,49>>
Here(p) == p.port = E.port /\ (p.host = E.ip \/ (p.host = tLocal /\ E.ip = tLoop))
UrlCase ==
    /\ E.e = "url"
    /\ LET p == Parse(E.text) IN
       Flag("C17", If(E.r \in {"panic", "hang"}, E.r)
                   \cup (CASE p.k = "ok" /\ Here(p) -> If(E.conns # 1 \/ E.others # 0, "connections")
                                                       \cup (IF E.conns > 0 THEN Asked(p, E.req) ELSE {})
                                                       \cup If(E.r # "ok" \/ (E.r = "ok" /\ E.body # <<104, 105>>), "response")
                           [] p.k = "ok" /\ ~Here(p) -> If(E.conns # 0, "connected elsewhere")
                           [] p.k = "bad" -> If(E.conns # 0 \/ E.others # 0, "connected") \cup If(E.r # "err", "accepted")
                           [] OTHER -> {}))
\* a request that names no address is an error
BlankCase == E.e = "blank" /\ Flag("C17", If(E.r # "err", "no address: " \o E.r))
\* the headers as reported: a set of [n, vs]
Wanted(hs) == {[n |-> n, vs |-> A!Values(hs, n)] : n \in A!Names(hs)}
tSetCookie == <<83,101,116,45,67,111,111,107,105,101>>
Reading(raws, r) ==
    LET wrong == \E i \in DOMAIN raws : C!Unusable(raws[i])
    IN  If(r.panic, "panic in cookies") \cup If(r.ok = wrong, "cookies usable")
        \cup (IF r.ok /\ ~wrong THEN If(Len(r.texts) # Len(raws) \/ (Len(r.texts) = Len(raws) /\ \E i \in DOMAIN raws : ~C!Written(C!Read(raws[i]), r.texts[i])), "cookies") ELSE {})
AnswerCase ==
    /\ E.e = "answer"
    /\ LET m == A!Meaning(E.sent)
           whole == Len(SelectSeq(m.hs, LAMBDA h : Lower(h.n) = A!nLength /\ AllDigits(h.v))) > 0
           cs == A!Values(m.hs, tSetCookie)
       IN Flag("C18", If(E.r \in {"panic", "hang"}, E.r) \cup If(E.conns # 1, "connections")
              \cup (CASE m.k = "error" -> If(E.r # "err", "accepted")
                      [] m.k = "ok" /\ E.reset /\ ~whole -> If(E.r # "err", "reset accepted")
                      [] m.k = "ok" /\ ~(E.reset /\ E.r = "err") ->
                            If(E.r # "ok", "refused")
                            \cup (IF E.r # "ok" THEN {} ELSE
                                   If(E.body # m.body, "body")
                                   \cup If(E.show.ver # <<>> /\ E.show.ver[1] # m.v, "version")
                                   \cup If(E.show.code # <<>> /\ E.show.code[1] # m.code, "status")
                                   \cup If(E.show.hs # <<>> /\ {E.show.hs[1][i] : i \in DOMAIN E.show.hs[1]} # Wanted(m.hs), "headers")
                                   \cup Reading(cs, E.cookies))
                      [] OTHER -> {}))
\* a response whose body is too long to be listed here: E.got is the length of the body reported, E.same whether it is the beginning of what was sent
BulkCase ==
    /\ E.e = "bulk"
    /\ LET m == A!MeaningOf(E.sent, E.bulk)
           whole == Len(SelectSeq(m.hs, LAMBDA h : Lower(h.n) = A!nLength /\ AllDigits(h.v))) > 0
       IN Flag("C18", If(E.r \in {"panic", "hang"}, E.r) \cup If(E.conns # 1, "connections")
              \cup (CASE m.k = "error" -> If(E.r # "err", "accepted")
                      [] m.k = "ok" /\ E.reset /\ ~whole -> If(E.r # "err", "reset accepted")
                      [] m.k = "ok" /\ ~(E.reset /\ E.r = "err") ->
                            If(E.r # "ok", "refused")
                            \cup (IF E.r # "ok" THEN {} ELSE If(E.got # Len(m.body) + m.more \/ ~E.same, "body"))
                      [] OTHER -> {}))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ BlankCase \/ UrlCase \/ AnswerCase \/ BulkCase)
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
