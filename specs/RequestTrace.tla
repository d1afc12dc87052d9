---------------------------- MODULE RequestTrace ----------------------------
(* Checks what handlers and clients of real servers observed against Request. *)
EXTENDS Request, Json, IOUtils
MP == INSTANCE Multipart
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, p
Range(s) == {s[i] : i \in DOMAIN s}
tOk == <<111, 107>>

FieldParts(ps) == SelectSeq(ps, LAMBDA x : ~x.h)
FileParts(ps) == SelectSeq(ps, LAMBDA x : x.h)
PartsAgree(e) == \A i \in DOMAIN e.parts :
                    LET n == MP!NameOf(e.parts[i].l)  f == MP!FileOf(e.parts[i].l) IN
                    /\ n.h /\ n.v = e.parts[i].n /\ f.h = e.parts[i].h /\ f.v = e.parts[i].f
\* the recording itself is consistent: the bytes are those of the parts
Faithful(e) == (e.bnd # <<>> /\ e.lit /\ \A i \in DOMAIN e.parts : e.parts[i].s <= 700) =>
                  /\ Take(MP!Render(e.parts, e.bnd) \o e.tail, e.blen) = e.body
                  /\ PartsAgree(e)
Forms(e, v) == IF ~v.body \/ v.need = 0 THEN <<>>
               ELSE IF v.obs.type = tForm THEN IF e.lit THEN Pairs(Take(e.body, v.need)) ELSE e.pairs
               ELSE IF v.obs.type = tMultipart
                    THEN LET f == FieldParts(e.parts) IN [i \in DOMAIN f |-> [n |-> f[i].n, v |-> f[i].v]]
               ELSE <<>>
Files(e, v) == IF v.body /\ v.need > 0 /\ v.obs.type = tMultipart
               THEN LET f == FileParts(e.parts) IN [i \in DOMAIN f |-> [n |-> f[i].n, f |-> f[i].f, s |-> f[i].s, v |-> f[i].v]]
               ELSE <<>>
\* what a lookup of each of the names says about a list of pairs
Answers(names, ps) == LET L == LastOf(ps) IN
    {[n |-> n, h |-> \E x \in L : x.n = n, v |-> IF \E x \in L : x.n = n THEN <<(CHOOSE x \in L : x.n = n).v>> ELSE <<>>] : n \in Range(names)}
CookieText(c) == IF c.n = <<>> THEN <<>> ELSE c.n \o <<EQ>> \o c.v

Same(e, v, o) ==
    LET w == v.obs IN
    [slot |-> o.slot = w.slot,
     path |-> o.path = w.path,
     header |-> /\ Range(o.hdr) = w.hdr /\ Len(o.hdr) = Cardinality(w.hdr)
              /\ \A i \in DOMAIN o.hget :
                   LET S == {h \in w.hdr : h.n = o.hget[i].n}
                   IN  o.hget[i].v = IF S = {} THEN <<>> ELSE <<(CHOOSE h \in S : TRUE).v>>,
     query |-> Range(o.params) = Answers(e.names, w.params) /\ o.pc = Cardinality(Names(w.params)),
     cookies |-> /\ o.cookies = [i \in DOMAIN w.cookies |-> CookieText(w.cookies[i])]
                 /\ \A i \in DOMAIN o.cget :
                      LET S == {k \in DOMAIN w.cookies : w.cookies[k].n = o.cget[i].n}
                      IN o.cget[i].n = <<>> \/ o.cget[i].v = IF S = {} THEN <<>> ELSE <<CookieText(w.cookies[Least(S)])>>,
     user |-> o.user = w.user,
     websocket |-> o.ws = w.ws,
     client |-> o.chost = "127.0.0.1" /\ o.cport = e.port,
     form |-> e.nofm \/ (~o.err /\ Range(o.forms) = Answers(e.names, Forms(e, v)) /\ o.fc = Cardinality(Names(Forms(e, v)))),
     files |-> e.nofm \/ (~o.err /\ Range(o.files) = {x \in LastOf(Files(e, v)) : x.n \in Range(e.names)})]

Served(e) == e.end = "ok" /\ e.status = 200 /\ Len(e.runs) = 1 /\ e.got = tOk
Refused(e, S) == e.end = "ok" /\ e.status \in S /\ e.runs = <<>> /\ e.closed \in {"eof", "reset"}
Why(e) ==
    LET v == Verdict(e.head, e.blen, e.fin)
    IN  IF ~Faithful(e) THEN {"recording"}
        ELSE IF e.head = <<>> THEN IF e.end \in {"eof", "reset"} /\ e.runs = <<>> /\ e.got = <<>> THEN {} ELSE {"empty"}
        ELSE IF v.must # {} /\ ~v.grey THEN IF Refused(e, v.must \cup v.may) THEN {} ELSE {"refuse"}
        ELSE IF Refused(e, v.must \cup v.may) THEN {}
        ELSE IF ~Served(e) THEN {"serve"}
        ELSE (IF v.grey \/ e.closed = (IF v.keep /\ ~e.fin THEN "open" ELSE "eof") THEN {} ELSE {"closed"})
             \cup (IF v.grey THEN {}
                   ELSE LET s == Same(e, v, e.runs[1]) IN {k \in DOMAIN s : ~s[k]})
Init == l = 1 /\ bad = <<>> /\ p = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.e = "case" THEN p' = e.p /\ UNCHANGED bad
           ELSE /\ UNCHANGED p
                /\ IF e.e = "other" THEN bad' = IF e.ok THEN bad ELSE Append(bad, [l |-> l, p |-> p, why |-> {"another client's request"}])
                   ELSE LET w == Why(e) \cup (IF e.probe THEN {} ELSE {"another client"})
                        IN  bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> p, why |-> w])
Spec == Init /\ [][Next]_<<l, bad, p>>
Report == l = Len(Trace) + 1 => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
