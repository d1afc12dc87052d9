------------------------------ MODULE Filters ------------------------------
(* C03: filter chains.  Requests run concurrently, one context each; a        *)
(* context walks the merged chain (route filters, then group filters, then    *)
(* the handler) and stops as soon as a response has been sent.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Declarative half: what a request that reaches a route with the filters `own` in a group with the filters
\* `grp` and the handler `hd` runs, when exactly the steps in `resp` send a response.
Chain(own, grp, hd) == own \o grp \o <<hd>>
FirstIn(s, R) == IF \E i \in DOMAIN s : s[i] \in R
                 THEN CHOOSE i \in DOMAIN s : s[i] \in R /\ \A j \in 1..(i - 1) : s[j] \notin R
                 ELSE Len(s)
\* the handler answers if no filter does
Runs(own, grp, hd, resp) == LET c == Chain(own, grp, hd) IN SubSeq(c, 1, FirstIn(c, resp \cup {hd}))
Responder(own, grp, hd, resp) == LET r == Runs(own, grp, hd, resp) IN r[Len(r)]

-----------------------------------------------------------------------------
CONSTANTS FilterIds, HandlerIds, MaxOwn, MaxGrp, Requests
VARIABLES cfg,      \* handler id -> [own, grp]: the route of each handler
          ctx       \* request -> its context
vars == <<cfg, ctx>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Idle == [st |-> "idle", hd |-> 0, resp |-> {}, i |-> 0, executed |-> FALSE, ran |-> <<>>, sent |-> <<>>]
Init == /\ cfg \in [HandlerIds -> [own : Seqs(FilterIds, MaxOwn), grp : Seqs(FilterIds, MaxGrp)]]
        /\ ctx = [q \in Requests |-> Idle]

Arrive(q, hd, resp) ==
    /\ ctx[q].st = "idle"
    /\ ctx' = [ctx EXCEPT ![q] = [Idle EXCEPT !.st = "own", !.hd = hd, !.resp = resp, !.i = 1]]
    /\ UNCHANGED cfg
Exec(c, f, answers) == [c EXCEPT !.ran = Append(@, f), !.executed = @ \/ answers,
                                 !.sent = IF answers THEN Append(@, f) ELSE @]
\* one step of a context: filters of the route, then of the group, each only while nothing has been sent
Step(q) ==
    LET c == ctx[q]
        r == cfg[c.hd]
        f == IF c.st = "own" THEN r.own ELSE r.grp
    IN  /\ c.st \in {"own", "grp", "handler"}
        /\ ctx' = [ctx EXCEPT ![q] =
             IF c.st = "handler"
             THEN [(IF c.executed THEN c ELSE Exec(c, c.hd, TRUE)) EXCEPT !.st = "done"]
             ELSE IF c.i > Len(f) \/ c.executed
                  THEN [c EXCEPT !.st = IF c.st = "own" THEN "grp" ELSE "handler", !.i = 1]
                  ELSE [Exec(c, f[c.i], f[c.i] \in c.resp) EXCEPT !.i = @ + 1]]
        /\ UNCHANGED cfg
Next == \E q \in Requests : Step(q) \/ \E hd \in HandlerIds, resp \in SUBSET FilterIds : Arrive(q, hd, resp)
Spec == Init /\ [][Next]_vars /\ \A q \in Requests : WF_vars(Step(q))

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* at any time a request has run a prefix of what it is to run, and sent at most one response, its last step
Ordered == \A q \in Requests : ctx[q].st # "idle" =>
    LET c == ctx[q]  r == cfg[c.hd] IN
    /\ IsPrefix(c.ran, Runs(r.own, r.grp, c.hd, c.resp))
    /\ Len(c.sent) <= 1
    /\ c.executed = (c.sent # <<>>)
    /\ c.executed => c.sent[1] = c.ran[Len(c.ran)]
Complete == \A q \in Requests : ctx[q].st = "done" =>
    LET c == ctx[q]  r == cfg[c.hd] IN
    /\ c.ran = Runs(r.own, r.grp, c.hd, c.resp)
    /\ c.sent = <<Responder(r.own, r.grp, c.hd, c.resp)>>
Answered == \A q \in Requests : ctx[q].st = "own" ~> ctx[q].st = "done"
=============================================================================
