----------------------------- MODULE ServersTrace -----------------------------
(* Recorded histories of servers, clones, listeners and requests to them.      *)
EXTENDS Servers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, hist, ls \* ls: the listeners that serve, [port, h, then]
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Init == l = 1 /\ bad = <<>> /\ hist = <<>> /\ ls = <<>>
\* an address to be had: some port of ours (0), or a port nobody has
FreeIn(e) == {0} \cup {e.free[i] : i \in DOMAIN e.free}
ListenWrong == LET k == First(E.addrs, FreeIn(E)) IN
    IF k = 0 THEN If(E.res # "error", "an address that is not to be had: " \o E.res) \cup If(E.res = "error" /\ E.left # 0, "threads left behind")
    ELSE If(E.res # "listening", "no listener: " \o E.res) \cup If(E.res = "listening" /\ E.addrs[k] # 0 /\ E.port # E.addrs[k], "another address")
         \cup If(E.res = "listening" /\ E.addrs[k] = 0 /\ E.port # -1, "another address")
AskWrong == LET x == ls[E.at]  id == Handler(hist, x.h, E.p) IN
    If(E.end # "ok", "no answer") \cup
    (IF E.end # "ok" THEN {}
     ELSE IF id = 0 THEN If(E.status # 404 \/ E.ran # <<>>, "a route that is not there")
     ELSE If(E.status # 200 \/ E.ran # <<id>> \/ E.body # id, "route") \cup If(E.packed # (E.gzip /\ Compresses(x.then, x.h)), "compression"))
\* all workers can be held, each by a request of its own
BlockWrong == LET x == ls[E.at]  n == Workers(x.then, x.h, 0) IN
    If(E.held < n /\ ~E.ran, "a free worker was not given the request") \cup If(E.held >= n /\ E.ran, "more workers than set")
\* what a kept connection that is idle comes to, seen for 250 ms or until it should be closed
IdleWrong == LET x == ls[E.at] IN If(~E.answered, "no answer") \cup If(E.closed # (Keeps(x.then, x.h) < 1000), "keepalive time")
\* where all workers are held, connections wait: there are a hundred places
Places == 100
CrowdWrong == LET x == ls[E.at]  left == Places - (E.held - Workers(x.then, x.h, 0)) IN
    If(E.answered < (IF E.asked < left THEN E.asked ELSE left), "a waiting connection was not served")
Wrong == CASE E.e = "listen" -> ListenWrong
           [] E.e = "ask" -> AskWrong
           [] E.e = "idle" -> IdleWrong
           [] E.e = "block" -> BlockWrong
           [] E.e = "crowded" -> CrowdWrong
           [] E.e = "released" -> If(E.answered # E.asked, "a held request was not answered")
           [] E.e = "route" -> If(~E.ok, "registration refused")
           [] OTHER -> {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ hist' = CASE E.e = "case" -> <<>>
                     [] E.e \in {"new", "clone", "comp", "size", "keep"} -> Append(hist, E.o)
                     [] E.e = "route" /\ E.ok -> Append(hist, E.o)
                     [] OTHER -> hist
        /\ ls' = CASE E.e = "case" -> <<>>
                   [] E.e = "listen" /\ E.res = "listening" -> Append(ls, [port |-> E.port, h |-> E.h, then |-> hist])
                   [] OTHER -> ls
        /\ bad' = LET w == Wrong IN IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C26", why |-> w])
Spec == Init /\ [][Next]_<<l, bad, hist, ls>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
