------------------------------ MODULE LimitTrace ------------------------------
(* Requests to limited routes: when they were sent, when their first filter or *)
(* handler started (microseconds), how often it ran, whether it was answered.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
L == INSTANCE Limit WITH Section <- 0, Count <- 0, Interval <- 0, Runners <- {}, Requests <- 0, MaxTime <- 0, Buffer <- 0, Stale <- FALSE, Locked <- TRUE,
        now <- 0, times <- <<>>, lock <- 0, pc <- <<>>, seen <- <<>>, chan <- 0, waiting <- 0, admitted <- <<>>, arrived <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Flag(w) == bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C04", why |-> w])
Init == l = 1 /\ bad = <<>>
Case == E.e = "case" /\ UNCHANGED bad
Pos(x) == IF x < 0 THEN 0 ELSE x
\* times are whole milliseconds to the limiter: a difference may be one short
Slack == 100
Limited ==
    /\ E.e = "limited"
    /\ LET ran == SelectSeq(E.reqs, LAMBDA q : q.ran > 0)
           S == SortSeq([i \in DOMAIN ran |-> ran[i].sent], <)
           H == SortSeq([i \in DOMAIN ran |-> ran[i].start], <)
       IN Flag(If(~L!Possible(S, H, Pos(E.section) * 1000, E.count, Pos(E.interval) * 1000, Slack), "admitted too many")
               \cup If(\E i \in DOMAIN E.reqs : E.reqs[i].ran > 1, "ran twice")
               \cup If(\E i \in DOMAIN E.reqs : E.reqs[i].ran = 0 \/ ~E.reqs[i].answered, "never admitted"))
\* requests to routes without that limit
Free == E.e = "free" /\ Flag(If(\E i \in DOMAIN E.reqs : E.reqs[i].ran # 1 \/ ~E.reqs[i].answered, "free not answered")
                             \cup If(\E i \in DOMAIN E.reqs : E.reqs[i].start - E.reqs[i].sent > E.bound, "free delayed"))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Limited \/ Free)
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
