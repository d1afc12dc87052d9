----------------------------- MODULE CookieTrace -----------------------------
(* Cookies written and read by the code: as values, on the wire, by a client.  *)
EXTENDS Cookie, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Flag(w) == bad' = IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C19", why |-> w])
Init == l = 1 /\ bad = <<>>
Case == E.e = "case" /\ UNCHANGED bad
\* a reading: r.ok, or the texts of the cookies read from raws
Reading(raws, r) ==
    LET wrong == \E i \in DOMAIN raws : Unusable(raws[i])
    IN  If(r.panic, "panic") \cup If(r.ok = wrong, "usable")
        \cup (IF r.ok /\ ~wrong
              THEN If(Len(r.texts) # Len(raws), "number read")
                   \cup If(Len(r.texts) = Len(raws) /\ \E i \in DOMAIN raws : ~Written(Read(raws[i]), r.texts[i]), "read")
              ELSE {})
ReadBack == E.e = "read" /\ Flag(Reading(E.raws, E.r))
\* cookies set, the texts seen, what they were read back as and whether it was equal to what was set
Trip == /\ E.e = "trip"
        /\ Flag(IF Len(E.texts) # Len(E.cs) THEN {"number written"}
                ELSE If(\E i \in DOMAIN E.cs : ~Writable(E.cs[i]), "not writable")
                     \cup If(\E i \in DOMAIN E.cs : ~Written(E.cs[i], E.texts[i]), "written")
                     \cup If(~E.r.ok, "not read") \cup Reading(E.texts, E.r)
                     \cup If(E.r.ok /\ \E i \in DOMAIN E.same : ~E.same[i] /\ ~E.cs[i].expires, "not equal"))
\* sent back in a Cookie field: what req_cookies saw, and req_cookie_get of each name
Said(c) == c.n \o <<EQ>> \o c.v
FirstOf(cs, n) == cs[CHOOSE i \in DOMAIN cs : cs[i].n = n /\ \A j \in DOMAIN cs : cs[j].n = n => i <= j]
Back == /\ E.e = "back"
        /\ Flag(If(E.status # 200, "refused")
                \cup If(E.seen # [i \in DOMAIN E.cs |-> Said(E.cs[i])], "sent back")
                \cup If(E.first # [i \in DOMAIN E.cs |-> <<Said(FirstOf(E.cs, E.cs[i].n))>>], "by name"))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ ReadBack \/ Trip \/ Back)
Spec == Init /\ [][Next]_<<l, bad>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
