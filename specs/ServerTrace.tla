---------------------------- MODULE ServerTrace ----------------------------
(* C16: what every client of a concurrent run saw, against Server: the answer *)
(* of request n of a connection is that of (connection, n), each request runs *)
(* once, a panic ends its connection and nothing else, and afterwards as many *)
(* handlers run at once as there are workers (and not more).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, st, n
vars == <<l, bad, st, n>>
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Flag(why) == bad' = IF why = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C16", why |-> why])
Init == l = 1 /\ bad = <<>> /\ st = "closed" /\ n = 0
Case == E.e = "case" /\ st' = "closed" /\ n' = 0 /\ UNCHANGED bad
Conn == E.e = "conn" /\ st' = "reading" /\ n' = 0 /\ UNCHANGED bad
\* tok: what the request carried; echo: everything the answer repeats of it; extra: cookies or headers of others
Req == /\ E.e = "req" /\ n' = n + 1
       /\ IF E.kind = "panic"
          THEN Flag(If(E.end = "ok", "an answer although the handler panicked") \cup If(E.end = "timeout", "a panicked request left its connection open")
                    \cup If(E.runs # 1, "a request was not handled exactly once")) /\ st' = "closed"
          ELSE /\ Flag(If(st # "reading", "a request on a closed connection") \cup If(E.end # "ok" \/ E.status # 200, "a request was not answered")
                       \cup If(E.end = "ok" /\ \E i \in DOMAIN E.echo : E.echo[i] # E.tok, "the answer carries something of another request")
                       \cup If(E.end = "ok" /\ E.extra, "the answer carries something of another request")
                       \cup If(E.runs # 1, "a request was not handled exactly once")
                       \cup If(E.kind = "close" /\ E.closed \notin {"eof", "reset"}, "the connection was not closed"))
               /\ st' = IF E.kind = "keep" THEN "reading" ELSE "closed"
Full == E.e = "full" /\ Flag(If(E.started < E.pool, "fewer handlers run at once than there are workers")
                            \cup If(E.started > E.pool, "more handlers run at once than there are workers")) /\ UNCHANGED <<st, n>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Conn \/ Req \/ Full)
Spec == Init /\ [][Next]_vars
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
