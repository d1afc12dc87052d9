---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
INSTANCE Filters WITH FilterIds <- {}, HandlerIds <- {}, MaxOwn <- 0, MaxGrp <- 0, Requests <- {}, cfg <- <<>>, ctx <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Range(s) == {s[i] : i \in DOMAIN s}
Want(e) == Runs(e.own, e.grp, e.hd, Range(e.resp))
\* every step that ran left its mark in the response, in order, and the last one composed the body
Ok(e) == LET w == Want(e) IN
         /\ e.ran = w
         /\ e.end = "ok" /\ e.status = 200 /\ e.extra = 0
         /\ e.marks = w
         /\ e.body = "r" \o ToString(w[Len(w)])
Init0 == l = 1 /\ bad = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            bad' = IF e.e = "case" \/ Ok(e) THEN bad ELSE Append(bad, [l |-> l, p |-> "C03", want |-> Want(e)])
TSpec == Init0 /\ [][TNext]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
