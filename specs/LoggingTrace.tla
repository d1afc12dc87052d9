----------------------------- MODULE LoggingTrace -----------------------------
EXTENDS Logging, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, conf, files      \* conf: the configuration in force, [none |-> TRUE] before any or where one is open
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
RangeOf(s) == {s[i] : i \in DOMAIN s}
MB == 1048576
Unknown == [none |-> TRUE]
Known == "main" \in DOMAIN conf
Init == l = 1 /\ bad = <<>> /\ conf = Unknown /\ files = <<>>
\* what was found on the disk
Found == [p \in {E.snap[i].p : i \in DOMAIN E.snap} |-> LET x == E.snap[CHOOSE i \in DOMAIN E.snap : E.snap[i].p = p] IN
            [now |-> [i \in DOMAIN x.now |-> [id |-> x.now[i][1], b |-> x.now[i][2]]],
             old |-> [k \in DOMAIN x.old |-> [i \in DOMAIN x.old[k] |-> [id |-> x.old[k][i][1], b |-> x.old[k][i][2]]]]]]
Same(f, g) == \A p \in DOMAIN f \cup DOMAIN g : FileAt(f, p) = FileAt(g, p)

-----------------------------------------------------------------------------
\* one record: its lines, the files after it, the console
Text(lev) == CASE lev = "Error" -> "ERROR" [] lev = "Warn" -> "WARN" [] lev = "Info" -> "INFO" [] lev = "Debug" -> "DEBUG" [] OTHER -> "TRACE"
S0 == Reached(conf, E.t, E.l)
Paths(c, t, lev) == {PathOf(c, i) : i \in Reached(c, t, lev)}
LinesAt(p) == {i \in DOMAIN E.lines : E.lines[i].p = p}
LineOk(x) == x.level = Text(E.l) /\ x.target = E.target /\ x.n = E.n /\ x.same /\ x.msg = E.msg
Bs == [p \in Paths(conf, E.t, E.l) |-> LET s == LinesAt(p) IN IF s = {} THEN 0 ELSE E.lines[CHOOSE i \in s : TRUE].b]
RecWrong == If({E.lines[i].p : i \in DOMAIN E.lines} # Paths(conf, E.t, E.l), "where")
            \cup If(\E p \in Paths(conf, E.t, E.l) : Cardinality(LinesAt(p)) > 1, "twice")
            \cup If(\E i \in DOMAIN E.lines : ~LineOk(E.lines[i]), "line")
            \cup If(E.enabled # (S0 # {}), "enabled")
            \cup If((\A p \in Paths(conf, E.t, E.l) : LinesAt(p) # {}) /\ ~Same(Into(conf, files, S0, E.id, Bs, MB), Found), "files")
            \cup If((0 \in S0) # (E.stdn > 0), "console")
            \cup If(0 \in S0 /\ E.stdn > 0 /\ ~E.stdok, "console line")

\* records from several threads, under one configuration or while another takes over
IdsOf(f) == [i \in DOMAIN All(f) |-> All(f)[i].id]
Fresh(p) == LET a == IdsOf(FileAt(Found, p))  k == Len(All(FileAt(files, p))) IN SubSeq(a, k + 1, Len(a))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
AllPaths == DOMAIN Found \cup DOMAIN files
At(id) == {p \in AllPaths : Count(Fresh(p), id) = 1}
BurstWrong(cs) ==
    LET rs == E.recs IN
    If(\E p \in AllPaths : \E x \in RangeOf(Fresh(p)) : Count(Fresh(p), x) > 1, "twice")
    \cup If(\E p \in AllPaths : ~(RangeOf(Fresh(p)) \subseteq {rs[i].id : i \in DOMAIN rs}), "stranger")
    \cup If(\E i \in DOMAIN rs : At(rs[i].id) \notin {Paths(c, rs[i].t, rs[i].l) : c \in cs}, "where")
    \* those of one thread stay in order
    \cup If(\E p \in AllPaths : LET f == Fresh(p)
                                   th == [i \in DOMAIN f |-> {r.th : r \in {x \in RangeOf(rs) : x.id = f[i]}}]
                               IN \E i, j \in DOMAIN f : i < j /\ f[j] < f[i] /\ th[i] \cap th[j] # {}, "order")
    \cup If(\E p \in AllPaths : ~(LET a == IdsOf(FileAt(files, p)) b == IdsOf(FileAt(Found, p)) IN Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a), "lost")
    \cup If(E.broken, "line")

NextConf == CASE E.e = "config" -> IF Sound(E.conf) THEN E.conf ELSE IF E.ok THEN Unknown ELSE conf
              [] E.e = "race" -> IF ~E.ok THEN conf ELSE IF Sound(E.conf) THEN E.conf ELSE Unknown
              [] E.e = "case" -> Unknown
              [] OTHER -> conf
\* a configuration loses nothing that was written
Wrong == CASE E.e = "config" -> If(Sound(E.conf) /\ ~E.ok, "refused") \cup If(~Same(files, Found), "lost")
           [] E.e = "rec" -> IF Known THEN RecWrong ELSE {}
           [] E.e = "burst" -> IF Known THEN BurstWrong({conf}) ELSE {}
           [] E.e = "race" -> If(Sound(E.conf) /\ ~E.ok, "refused") \cup (IF Known /\ (Sound(E.conf) \/ ~E.ok) THEN BurstWrong(IF E.ok THEN {conf, E.conf} ELSE {conf}) ELSE {})
           [] E.e = "first" -> If(E.left # <<>>, "left behind") \cup If(E.enabled, "enabled")
           [] E.e = "panic" -> {"panic"}
           [] OTHER -> {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ conf' = NextConf
        /\ files' = IF E.e = "case" THEN <<>> ELSE IF "snap" \in DOMAIN E THEN Found ELSE files
        /\ bad' = LET w == Wrong \cup (IF "extra" \in DOMAIN E THEN If(E.extra # <<>>, "file") ELSE {}) IN
                  IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C24", why |-> w])
Spec == Init /\ [][Next]_<<l, bad, conf, files>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
