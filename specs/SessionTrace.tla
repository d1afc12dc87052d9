---------------------------- MODULE SessionTrace ----------------------------
(* C11: timed observations of real connections against Session. A connection  *)
(* is a run of events: conn, req*, end; times in milliseconds on one clock.   *)
(* The answer left the server between the handler's end (he) and its arrival  *)
(* at the client (ans); that interval bounds the deadline of Session.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Early,   \* clocks are truncated to milliseconds
          Late,    \* allowed delay of threads that can run
          Margin   \* a request sent this long before the deadline is in time
VARIABLES l, bad, K, he, ans, alive
vars == <<l, bad, K, he, ans, alive>>
E == Trace[l]
Flag(why) == bad' = IF why = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C11", why |-> why])
If(c, x) == IF c THEN {x} ELSE {}
Init == l = 1 /\ bad = <<>> /\ K = 0 /\ he = 0 /\ ans = 0 /\ alive = FALSE
Case == E.e = "case" /\ UNCHANGED <<bad, K, he, ans, alive>>
Conn == E.e = "conn" /\ K' = E.k /\ he' = -1 /\ ans' = -1 /\ alive' = TRUE /\ UNCHANGED bad
\* a request that is to leave the connection open
Req == /\ E.e = "req"
       /\ LET intime == he < 0 \/ E.sent <= he + K - Margin
              cut == alive /\ intime /\ ~E.ok
              \* once its handler has started in time, nothing may cut the answer off
              handled == alive /\ E.hs >= 0 /\ (he < 0 \/ E.hs <= he + K - Margin) /\ ~E.ok
          IN Flag(If(cut, "an idle connection ended before its time, or a request on it was not answered")
                  \cup If(handled, "a request being handled was cut off"))
       /\ IF E.ok THEN he' = E.he /\ ans' = E.ans /\ UNCHANGED alive ELSE alive' = FALSE /\ UNCHANGED <<he, ans>>
       /\ UNCHANGED K
\* the same on a machine with more threads than processors: only what delays cannot explain is judged. The signal that
\* a request is being handled was sent before its handler started, the deadline is at least K after the last handler
Near == /\ E.e = "near"
        /\ Flag(If(alive /\ E.hs >= 0 /\ (he < 0 \/ E.hs <= he + K - Early) /\ ~E.ok, "a request being handled was cut off"))
        /\ IF E.ok THEN he' = E.he /\ ans' = E.ans /\ UNCHANGED alive ELSE alive' = FALSE /\ UNCHANGED <<he, ans>>
        /\ UNCHANGED K
\* how the connection ended; t: when the client saw it
End == /\ E.e = "end"
       /\ Flag(IF ~alive THEN {}
               ELSE IF E.how = "idle"
               THEN If(E.obs \notin {"eof", "reset"}, "an idle connection was not closed")
                    \cup If(E.obs \in {"eof", "reset"} /\ E.t < he + K - Early, "an idle connection was closed before its time")
                    \cup If(E.obs \in {"eof", "reset"} /\ E.t > ans + K + Late, "an idle connection was closed late")
               ELSE IF E.how = "leave" THEN {}
               ELSE If(E.obs \notin {"eof", "reset"} \/ E.t > E.ref + Late, "a connection that is over was not closed at once"))
       /\ alive' = FALSE /\ UNCHANGED <<K, he, ans>>
\* afterwards as many handlers run at once as there are workers
Free == E.e = "free" /\ Flag(If(E.started # E.pool, "a worker was not given back")) /\ UNCHANGED <<K, he, ans, alive>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Conn \/ Req \/ Near \/ End \/ Free)
Spec == Init /\ [][Next]_vars
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
