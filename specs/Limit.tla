-------------------------------- MODULE Limit --------------------------------
(* The limiter of a route: the threads that hand out admissions, their common  *)
(* times and channel, the waiting requests, and time.                          *)
EXTENDS Integers, Sequences
CONSTANTS Section, Count, Interval, Runners, Requests, MaxTime,
          Buffer,      \* capacity of the channel: 0 hands an admission to a waiting request only
          Stale,       \* TRUE: the time of the check is recorded, not that of the admission
          Locked       \* TRUE: one thread at a time checks, hands out and records
VARIABLES now, times, lock, pc, seen, chan, waiting, admitted, arrived
vars == <<now, times, lock, pc, seen, chan, waiting, admitted, arrived>>
Init == /\ now = 0 /\ times = [i \in 1..Count |-> i * (IF Interval > 0 THEN Interval ELSE 0) - Count * (IF Interval > 0 THEN Interval ELSE 0)]
        /\ lock = 0 /\ pc = [r \in Runners |-> "idle"] /\ seen = [r \in Runners |-> 0]
        /\ chan = 0 /\ waiting = 0 /\ admitted = <<>> /\ arrived = 0
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<times, lock, pc, seen, chan, waiting, admitted, arrived>>
Arrive == arrived < Requests /\ arrived' = arrived + 1 /\ waiting' = waiting + 1 /\ UNCHANGED <<now, times, lock, pc, seen, chan, admitted>>
Due == now - times[1] > Section /\ now - times[Count] > Interval
Check(r) == /\ pc[r] = "idle" /\ (Locked => lock = 0) /\ Due
            /\ lock' = (IF Locked THEN r ELSE 0) /\ pc' = [pc EXCEPT ![r] = "send"] /\ seen' = [seen EXCEPT ![r] = now]
            /\ UNCHANGED <<now, times, chan, waiting, admitted, arrived>>
Hand(r) == /\ pc[r] = "send" /\ Buffer = 0 /\ waiting > 0
           /\ waiting' = waiting - 1 /\ admitted' = Append(admitted, now) /\ pc' = [pc EXCEPT ![r] = "record"]
           /\ UNCHANGED <<now, times, lock, seen, chan, arrived>>
Put(r) == /\ pc[r] = "send" /\ chan < Buffer /\ chan' = chan + 1 /\ pc' = [pc EXCEPT ![r] = "record"]
          /\ UNCHANGED <<now, times, lock, seen, waiting, admitted, arrived>>
Get == /\ chan > 0 /\ waiting > 0 /\ chan' = chan - 1 /\ waiting' = waiting - 1 /\ admitted' = Append(admitted, now)
       /\ UNCHANGED <<now, times, lock, pc, seen, arrived>>
Record(r) == /\ pc[r] = "record" /\ times' = Append(Tail(times), IF Stale THEN seen[r] ELSE now)
             /\ pc' = [pc EXCEPT ![r] = "idle"] /\ lock' = 0 /\ UNCHANGED <<now, seen, chan, waiting, admitted, arrived>>
Next == Tick \/ Arrive \/ Get \/ \E r \in Runners : Check(r) \/ Hand(r) \/ Put(r) \/ Record(r)
Fair == WF_vars(Tick) /\ WF_vars(Get) /\ WF_vars(\E r \in Runners : Check(r)) /\ \A r \in Runners : WF_vars(Hand(r)) /\ WF_vars(Put(r)) /\ WF_vars(Record(r))
Spec == Init /\ [][Next]_vars /\ Fair

\* the limit as the user states it
Obeys(a, section, count, interval) ==
    /\ \A i \in DOMAIN a : i > count => a[i] - a[i - count] >= section
    /\ \A i \in DOMAIN a : i > 1 => a[i] - a[i - 1] >= interval
Within == Obeys(admitted, Section, Count, Interval)
Once == Len(admitted) + waiting = arrived
\* every request is admitted, if time suffices
Served == []<>(waiting = 0 \/ now = MaxTime)

-----------------------------------------------------------------------------
(* Can admissions with these limits be placed between the sending of the       *)
(* requests and the start of their handlers? The k-th admission is neither     *)
(* before the k-th sending nor after the k-th start.                           *)
RECURSIVE Earliest(_, _, _, _, _)
Earliest(S, section, count, interval, a) ==
    IF Len(a) = Len(S) THEN a
    ELSE LET k == Len(a) + 1
             x == S[k]
             y == IF k > 1 /\ a[k - 1] + interval > x THEN a[k - 1] + interval ELSE x
             z == IF k > count /\ a[k - count] + section > y THEN a[k - count] + section ELSE y
         IN  Earliest(S, section, count, interval, Append(a, z))
Possible(S, H, section, count, interval, slack) ==
    LET a == Earliest(S, section, count, interval, <<>>) IN \A k \in DOMAIN S : a[k] - slack * k <= H[k]
=============================================================================
