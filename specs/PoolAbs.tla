------------------------------ MODULE PoolAbs ------------------------------
(* C05, C06, C07: what a user of the thread pool can observe.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ph: task -> state of its submission (new, calling, accepted, rejected)
\* rn: task -> state of its execution (no, running, done, panicked)
\* fl: tasks during whose submission, at some instant, the queue capacity of other tasks was waiting
WaitingIn(ph, rn) == {t \in DOMAIN ph : ph[t] \in {"calling", "accepted"} /\ rn[t] = "no"}
RunningIn(rn) == {t \in DOMAIN rn : rn[t] = "running"}
AcceptedIn(ph, rn) == {t \in DOMAIN ph : ph[t] = "accepted" /\ rn[t] = "no"}
\* the operators ending in N are given the numbers of those waiting, accepted and running
SawFullN(ph, rn, cap, n) == IF n < cap THEN {}
                            ELSE {t \in DOMAIN ph : ph[t] = "calling" /\ (IF rn[t] = "no" THEN n - 1 ELSE n) >= cap}
SawFull(ph, rn, cap) == SawFullN(ph, rn, cap, Cardinality(WaitingIn(ph, rn)))

CanCall(ph, t) == ph[t] = "new"
\* a task may start before its submission has returned, but only once, and never when it was rejected
CanStartN(ph, rn, t, size, running) == ph[t] \in {"calling", "accepted"} /\ rn[t] = "no" /\ running < size
CanStart(ph, rn, t, size) == CanStartN(ph, rn, t, size, Cardinality(RunningIn(rn)))
CanEnd(rn, t) == rn[t] = "running"
CanAccept(ph, t) == ph[t] = "calling"
CanReject(ph, rn, fl, t) == ph[t] = "calling" /\ rn[t] = "no" /\ t \in fl

\* while every worker is busy at most `cap` accepted tasks wait
BoundedN(accepted, running, size, cap) == running = size => accepted <= cap
BoundedIn(ph, rn, size, cap) == BoundedN(Cardinality(AcceptedIn(ph, rn)), Cardinality(RunningIn(rn)), size, cap)
\* once the pool has settled nothing waits while a worker is to spare
SettledIn(ph, rn, size) == WaitingIn(ph, rn) = {} \/ Cardinality(RunningIn(rn)) = size
\* exactly the accepted tasks have run
DrainedIn(ph, rn) == \A t \in DOMAIN ph : IF ph[t] = "accepted" THEN rn[t] \in {"done", "panicked"} ELSE rn[t] = "no"

-----------------------------------------------------------------------------
CONSTANTS Tasks, Size, Cap
VARIABLES phase, run, full
absvars == <<phase, run, full>>

AInit == phase = [t \in Tasks |-> "new"] /\ run = [t \in Tasks |-> "no"] /\ full = {}
Observe == full' = full \cup SawFull(phase', run', Cap)
Running(rn) == RunningIn(rn)

Call(t) == CanCall(phase, t) /\ phase' = [phase EXCEPT ![t] = "calling"] /\ UNCHANGED run /\ Observe
Start(t) == CanStart(phase, run, t, Size) /\ run' = [run EXCEPT ![t] = "running"] /\ UNCHANGED phase /\ Observe
End(t, how) == CanEnd(run, t) /\ run' = [run EXCEPT ![t] = how] /\ UNCHANGED phase /\ Observe
Accept(t) == CanAccept(phase, t) /\ phase' = [phase EXCEPT ![t] = "accepted"] /\ UNCHANGED run /\ Observe
Reject(t) == CanReject(phase, run, full, t) /\ phase' = [phase EXCEPT ![t] = "rejected"] /\ UNCHANGED run /\ Observe
ANext == \E t \in Tasks : Call(t) \/ Start(t) \/ End(t, "done") \/ End(t, "panicked") \/ Accept(t) \/ Reject(t)
ASpec == AInit /\ [][ANext]_absvars
Bounded == BoundedIn(phase, run, Size, Cap)
Settled(ph, rn) == SettledIn(ph, rn, Size)
Drained(ph, rn) == DrainedIn(ph, rn)
=============================================================================
