------------------------------- MODULE Timer -------------------------------
(* C11: the loop of the timer thread, step by step, when it may be delayed    *)
(* anywhere: reading the clock, looking into the channel and judging are      *)
(* separate steps and time passes freely between them. Safety only; Session   *)
(* has the liveness, with threads that run as soon as they can.               *)
EXTENDS Integers, Sequences
CONSTANTS KeepAlive, MaxTime, MaxMsgs,
          LookFirst     \* FALSE: the original defect, the deadline is judged, and restarted, from a clock read
                        \* before the channel is looked at
VARIABLES now, chan, sent,      \* messages under way [m, at] and all messages sent
          pc, t0, expect, open, closedAt
vars == <<now, chan, sent, pc, t0, expect, open, closedAt>>
Inf == 1000
Init == now = 0 /\ chan = <<>> /\ sent = <<[m |-> "update", at |-> 0]>> /\ pc = "clock" /\ t0 = 0
        /\ expect = KeepAlive /\ open = TRUE /\ closedAt = Inf
Last == sent[Len(sent)]
\* the worker: pause when a request was read, update after its answer
Send == /\ Len(sent) < MaxMsgs /\ open
        /\ LET r == [m |-> IF Last.m = "update" THEN "pause" ELSE "update", at |-> now]
           IN chan' = Append(chan, r) /\ sent' = Append(sent, r)
        /\ UNCHANGED <<now, pc, t0, expect, open, closedAt>>
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<chan, sent, pc, t0, expect, open, closedAt>>
Clock == pc = "clock" /\ t0' = now /\ pc' = "look" /\ UNCHANGED <<now, chan, sent, expect, open, closedAt>>
Shut == open' = FALSE /\ closedAt' = now /\ pc' = "ended"
Look == /\ pc = "look"
        /\ IF ~LookFirst /\ expect <= t0 THEN Shut /\ UNCHANGED <<chan, expect, t0>>
           ELSE IF chan = <<>>
                THEN IF expect <= t0 THEN Shut /\ UNCHANGED <<chan, expect, t0>>
                     ELSE pc' = "clock" /\ UNCHANGED <<chan, expect, t0, open, closedAt>>
                ELSE /\ chan' = Tail(chan) /\ UNCHANGED <<open, closedAt>>
                     /\ IF Head(chan).m = "pause" THEN expect' = Inf /\ pc' = "clock" /\ UNCHANGED t0
                        ELSE IF LookFirst THEN pc' = "again" /\ UNCHANGED <<expect, t0>>
                             ELSE expect' = t0 + KeepAlive /\ pc' = "clock" /\ UNCHANGED t0
        /\ UNCHANGED <<now, sent>>
\* an update restarts the time from a clock read after it was received
Again == pc = "again" /\ expect' = now + KeepAlive /\ pc' = "clock" /\ UNCHANGED <<now, chan, sent, t0, open, closedAt>>
Next == Send \/ Tick \/ Clock \/ Look \/ Again
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* whatever the delays: closed only when the whole keep-alive time has passed since the last answer, and a request
\* that was read before the deadline is not cut off
DeadlineAfter(i) == sent[i].at + KeepAlive
NotEarly == [][(open /\ ~open') =>
    IF Last.m = "update" THEN now >= DeadlineAfter(Len(sent))
    ELSE Last.at >= DeadlineAfter(Len(sent) - 1)]_vars
=============================================================================
