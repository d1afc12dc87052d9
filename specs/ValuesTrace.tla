----------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Values, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, maps
E == Trace[l]
Range(s) == {s[i] : i \in DOMAIN s}
If(c, x) == IF c THEN {x} ELSE {}
Flag(w) == bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C20", why |-> w])
Init == l = 1 /\ bad = <<>> /\ maps = <<>>
Case == E.e = "case" /\ maps' = <<Empty>> /\ UNCHANGED bad
Op == E.e = "op" /\ maps' = [maps EXCEPT ![E.m] = After(@, E)] /\ Flag(If(E.ret # Returns(maps[E.m], E), "returned"))
Copy == E.e = "copy" /\ maps' = Append(maps, maps[E.m]) /\ UNCHANGED bad
\* every question about a map, asked about names it may or may not hold
Ask == /\ E.e = "ask" /\ UNCHANGED maps
       /\ LET f == maps[E.m] IN
          Flag(If(\E i \in DOMAIN E.answers : E.answers[i] # Answer(f, E.answers[i].n), "answers")
               \cup If(E.size # Size(f), "count")
               \cup If(Range(E.snap) # Snapshot(f) \/ Len(E.snap) # Size(f), "snapshot"))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Op \/ Copy \/ Ask)
Spec == Init /\ [][Next]_<<l, bad, maps>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
