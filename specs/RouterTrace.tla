---------------------------- MODULE RouterTrace ----------------------------
(* Checks recorded histories of real servers against Router.                 *)
EXTENDS Router, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Range(s) == {s[i] : i \in DOMAIN s}
TInit == Init /\ l = 1 /\ bad = <<>>

Want(e) == IF e.abs THEN Best(routes, e.m, e.path) ELSE 0
Dispatched(e, w) ==
    IF w = 0 THEN e.end = "ok" /\ e.status = 404 /\ e.runs = <<>>
    ELSE /\ e.end = "ok" /\ e.status = 200 /\ Len(e.runs) = 1
         /\ e.runs[1].id = w /\ e.body = "h" \o ToString(w)
FieldsOk(e, w) ==
    (w # 0 /\ Len(e.runs) = 1 /\ e.runs[1].id = w) =>
        LET f == Fields(routes[w].pat, e.path)
        IN  /\ Range(e.runs[1].f) = f /\ Len(e.runs[1].f) = Cardinality(f)
            /\ e.runs[1].cnt = Cardinality(f) /\ e.runs[1].agree

Fault(p, w) == [l |-> l, p |-> p, want |-> w]
TNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.e = "case" -> routes' = <<>> /\ trie' = <<>> /\ UNCHANGED bad
         \* e.ok says whether the registration was accepted, e.id the number its handler has then
         [] e.e = "reg"  -> /\ routes' = IF e.ok /\ e.id = Len(routes) + 1 THEN Append(routes, [m |-> e.m, pat |-> e.pat]) ELSE routes
                            /\ UNCHANGED trie
                            /\ bad' = bad \o IF e.ok = (e.abs /\ ~Taken(routes, e.m, e.pat)) THEN <<>> ELSE <<Fault("C01", Len(routes))>>
         [] OTHER        -> /\ UNCHANGED vars
                            /\ LET w == Want(e) IN
                               bad' = bad \o (IF Dispatched(e, w) THEN <<>> ELSE <<Fault("C01", w)>>)
                                          \o (IF FieldsOk(e, w) THEN <<>> ELSE <<Fault("C02", w)>>)
TSpec == TInit /\ [][TNext]_<<vars, l, bad>>
Report == l = Len(Trace) + 1 => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
