----------------------------- MODULE PoolTrace -----------------------------
(* Checks recorded histories of real pools against PoolAbs.  A call is       *)
(* recorded before it is made and a return after it was made; a start is     *)
(* recorded by the running task, an end before the task ends.  So what is    *)
(* recorded as running is running, and what waits is recorded as waiting.    *)
(* Tasks that are over for good (accepted and ended) are forgotten: one that *)
(* starts again is then as unknown as one that was never handed over.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
\* num: how many wait, how many of those are accepted, how many run
VARIABLES l, bad, ph, rn, fl, conf, num
Abs == INSTANCE PoolAbs WITH Tasks <- {}, Size <- 0, Cap <- 0, phase <- ph, run <- rn, full <- fl
Trace == ndJsonDeserialize(IOEnv.TRACE)

Zero == [w |-> 0, a |-> 0, r |-> 0]
TInit == l = 1 /\ bad = <<>> /\ ph = <<>> /\ rn = <<>> /\ fl = {} /\ conf = [p |-> "none", size |-> 0, cap |-> 0, stack |-> 0] /\ num = Zero
Put(f, t, v) == IF t \in DOMAIN f THEN [f EXCEPT ![t] = v] ELSE (t :> v) @@ f
Without(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
Known(t) == t \in DOMAIN ph
One(c) == IF c THEN 1 ELSE 0
\* the part of task t in the numbers
Part(f, g, t) == IF t \notin DOMAIN f THEN Zero
                 ELSE [w |-> One(f[t] \in {"calling", "accepted"} /\ g[t] = "no"), a |-> One(f[t] = "accepted" /\ g[t] = "no"), r |-> One(g[t] = "running")]
Moved(t) == LET o == Part(ph, rn, t)  n == Part(ph', rn', t) IN [w |-> num.w - o.w + n.w, a |-> num.a - o.a + n.a, r |-> num.r - o.r + n.r]
\* the numbers are what they stand for
Counted == Assert(num = [w |-> Cardinality(Abs!WaitingIn(ph, rn)), a |-> Cardinality(Abs!AcceptedIn(ph, rn)), r |-> Cardinality(Abs!RunningIn(rn))], "numbers")
Over(f, g, t) == f = "accepted" /\ g \in {"done", "panicked"}
Forget(t, f, g) == IF Over(f, g, t) THEN ph' = Without(ph, t) /\ rn' = Without(rn, t) ELSE ph' = Put(ph, t, f) /\ rn' = Put(rn, t, g)
Fault(why) == [l |-> l, p |-> conf.p, why |-> why]
Check(ok, why) == IF ok THEN <<>> ELSE <<Fault(why)>>
Saw == fl' = fl \cup Abs!SawFullN(ph', rn', conf.cap, num'.w)
TNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.e = "case" ->
              /\ ph' = <<>> /\ rn' = <<>> /\ fl' = {} /\ conf' = [p |-> e.p, size |-> e.size, cap |-> e.cap, stack |-> e.stack] /\ num' = Zero
              /\ bad' = IF e.reported = e.size THEN bad ELSE Append(bad, [l |-> l, p |-> e.p, why |-> "size"])
         [] e.e = "call" ->
              /\ ph' = Put(ph, e.t, "calling") /\ rn' = Put(rn, e.t, "no") /\ num' = Moved(e.t) /\ Saw /\ UNCHANGED <<bad, conf>>
         [] e.e = "ret" ->
              /\ IF Known(e.t) THEN Forget(e.t, IF e.ok THEN "accepted" ELSE "rejected", rn[e.t]) ELSE UNCHANGED <<ph, rn>>
              /\ num' = Moved(e.t) /\ Saw /\ UNCHANGED conf
              /\ bad' = bad \o Check(Known(e.t) /\ (IF e.ok THEN Abs!CanAccept(ph, e.t) ELSE Abs!CanReject(ph, rn, fl, e.t)),
                                     IF e.ok THEN "accepted twice" ELSE "rejected without a full queue, or after it started")
                            \o Check(Abs!BoundedN(num'.a, num'.r, conf.size, conf.cap), "more accepted tasks than the queue holds")
         [] e.e = "start" ->
              /\ rn' = Put(rn, e.t, "running") /\ (IF Known(e.t) THEN UNCHANGED ph ELSE ph' = Put(ph, e.t, "unknown"))
              /\ num' = Moved(e.t) /\ Saw /\ UNCHANGED conf
              /\ bad' = bad \o Check(Known(e.t) /\ Abs!CanStartN(ph, rn, e.t, conf.size, num.r), "started again, though rejected, or beyond the pool size")
                            \o Check(e.name, "thread name")
                            \* in units of 1024 bytes; what the system adds or takes for its own is small
                            \o Check(e.stack >= conf.stack - 64, "thread stack")
         [] e.e = "end" ->
              /\ IF Known(e.t) THEN Forget(e.t, ph[e.t], IF e.panic THEN "panicked" ELSE "done") ELSE UNCHANGED <<ph, rn>>
              /\ num' = Moved(e.t) /\ UNCHANGED <<fl, conf>>
              /\ bad' = bad \o Check(Known(e.t) /\ Abs!CanEnd(rn, e.t), "ended without running")
         [] e.e = "settle" ->
              /\ UNCHANGED <<ph, rn, fl, conf, num>> /\ Counted
              /\ bad' = bad \o Check(Abs!SettledIn(ph, rn, conf.size), "a task waits beside a free worker")
         [] e.e = "drain" ->
              /\ UNCHANGED <<ph, rn, fl, conf, num>> /\ Counted
              /\ bad' = bad \o Check(Abs!DrainedIn(ph, rn), "an accepted task did not run")
         [] e.e = "gone" ->
              /\ UNCHANGED <<ph, rn, fl, conf, num>> /\ Counted
              /\ bad' = bad \o Check(Abs!DrainedIn(ph, rn), "an accepted task did not run")
                            \o Check(e.left = 0, "threads left over")
         \* a pool that cannot be had is an error; what it leaves behind is asked by "gone"
         [] e.e = "unmade" -> /\ UNCHANGED <<ph, rn, fl, conf, num>> /\ bad' = bad \o Check(~e.panic, "panic where an error is due")
         [] e.e = "stuck" -> /\ UNCHANGED <<ph, rn, fl, conf, num>> /\ bad' = Append(bad, Fault("the pool's caller is blocked"))
         [] OTHER -> UNCHANGED <<ph, rn, fl, conf, bad, num>>
TSpec == TInit /\ [][TNext]_<<l, bad, ph, rn, fl, conf, num>>
Report == l = Len(Trace) + 1 => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
