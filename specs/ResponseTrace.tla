---------------------------- MODULE ResponseTrace ----------------------------
(* What clients received against what the handlers composed.                  *)
EXTENDS Response, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Own == {"Content-Length", "Content-Encoding"}
Got(e, n) == LET mine == SelectSeq(e.headers, LAMBDA x : x.n = n) IN [i \in DOMAIN mine |-> mine[i].v]
GotNames(e) == {e.headers[i].n : i \in DOMAIN e.headers} \ Own
Enc(e) == LET g == Got(e, "Content-Encoding") IN IF g = <<>> THEN "" ELSE IF Len(g) = 1 THEN g[1] ELSE "several"
Why(e) ==
    LET want == Headers(e.ops, e.keep)
        b == BodyOf(e.ops)
    IN  IF e.end # "ok" THEN {"no response"}
        ELSE If(e.version # VersionOf(e.ops, e.ver), "version")
             \cup If(e.status # StatusOf(e.ops), "status")
             \cup If(e.status \notin S!Codes \/ (e.status \in S!Codes /\ e.reason # S!Phrases[e.status]), "reason")
             \cup If(GotNames(e) # DOMAIN want \/ \E n \in DOMAIN want : Got(e, n) # want[n], "headers")
             \cup If(Got(e, "Content-Length") # <<ToString(e.wire)>>, "length")
             \cup If(e.after # (IF e.keep THEN "answered" ELSE "eof"), "after")
             \cup If(~e.dec \/ e.body # b.b, "body")
             \cup If(~CodingAllowed(b, Wanted(e.comp, e.ae), Enc(e), e.wire), "coding")
\* what belongs to which property
Mine(p) == IF p = "C12" THEN {"no response", "version", "status", "reason", "headers", "length", "after", "body"}
           ELSE {"no response", "length", "after", "body", "coding"}
Init == l = 1 /\ bad = <<>>
Case == E.e = "case" /\ UNCHANGED bad
Resp == E.e = "resp" /\ LET w == Why(E) \cap Mine(E.p) IN bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> E.p, why |-> w])
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Resp)
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
