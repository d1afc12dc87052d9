---------------------------- MODULE CalendarTrace ----------------------------
EXTENDS Calendar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, t       \* t: the time the case is about
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
T(x) == [d |-> x[1], s |-> x[2], n |-> x[3]]
Init == l = 1 /\ bad = <<>> /\ t = Zero
After == CASE E.e = "make" -> Amount(E.unit, E.x)
           [] E.e = "from" -> T(E.x)
           [] E.e = "plus" -> Plus(t, Amount(E.unit, E.x))
           [] E.e = "minus" -> Minus(t, Amount(E.unit, E.x))
           [] E.e = "add" -> Plus(t, T(E.x))
           [] E.e = "sub" -> Minus(t, T(E.x))
           [] E.e = "parse" /\ E.ok -> T(E.t)
           [] OTHER -> t
\* the numbers of whole units; those of micro- and nanoseconds may not fit
NumsWrong == UNION {LET q == E.nums[i] IN
                    IF q.some THEN If(~Counts(t, q.unit, q.x), q.unit) \cup If(q.unit = "nanoseconds" /\ (Less(MaxNanos, t) \/ Less(t, MinNanos)), "overflow")
                    ELSE If(q.unit # "nanoseconds" \/ (Leq(MinNanos, t) /\ Leq(t, MaxNanos)), "none") : i \in DOMAIN E.nums}
ParseWrong == LET r == Read(E.f, E.fmt) IN
              IF Write(E.f, E.fmt) # E.text /\ r.ok THEN {"spelling"}
              ELSE IF r.ok THEN If(~E.ok \/ T(E.t) # [d |-> r.d, s |-> r.s, n |-> r.n], "read")
              ELSE If(E.ok, "accepted")
Wrong == CASE E.e \in {"make", "from", "plus", "minus", "add", "sub"} -> If(T(E.t) # After, E.e)
           [] E.e = "nums" -> NumsWrong
           [] E.e = "format" -> If(Range(E.texts) # {Format(t, E.fmt)}, "format")
           [] E.e = "parse" -> ParseWrong
           [] E.e = "junk" -> If(E.ok, "accepted")
           [] E.e = "same" -> If(E.r # (T(E.a) = T(E.b)), "equality")
           [] E.e = "now" -> If(~(Leq(T(E.a), T(E.t)) /\ Leq(T(E.t), T(E.b))), "now")
           [] E.e = "panic" -> {"panic"}
           [] E.e = "case" -> {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ t' = IF E.e \in {"make", "from", "plus", "minus", "add", "sub"} THEN T(E.t) ELSE After
        /\ bad' = LET w == Wrong IN IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C22", why |-> w])
Spec == Init /\ [][Next]_<<l, bad, t>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
