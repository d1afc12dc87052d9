----------------------------- MODULE MCLimitObs -----------------------------
(* The judgement on recordings never condemns admissions that kept the limit.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, T, Section, Count, Interval
L == INSTANCE Limit WITH Runners <- {}, Requests <- 0, MaxTime <- 0, Buffer <- 0, Stale <- FALSE, Locked <- TRUE,
        now <- 0, times <- <<>>, lock <- 0, pc <- <<>>, seen <- <<>>, chan <- 0, waiting <- 0, admitted <- <<>>, arrived <- 0
VARIABLES s, a, h
Sorted(q) == SortSeq(q, <)
Init == /\ a \in [1..N -> 0..T] /\ s \in [1..N -> 0..T] /\ (\A i \in 1..N : s[i] <= a[i])
        /\ h \in [1..N -> 0..T] /\ (\A i \in 1..N : a[i] <= h[i])
Next == UNCHANGED <<s, a, h>>
Spec == Init /\ [][Next]_<<s, a, h>>
Sound == L!Obeys(Sorted(a), Section, Count, Interval) => L!Possible(Sorted(s), Sorted(h), Section, Count, Interval, 0)
=============================================================================
