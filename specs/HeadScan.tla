------------------------------ MODULE HeadScan ------------------------------
(* C08, C09, C14: scanning byte by byte, as the implementation does, agrees   *)
(* with the declarative reading of Request, on every short byte string.       *)
EXTENDS Request
CONSTANTS MaxLen, MaxQuery
VARIABLES kind, s
Sym == {LF, CR, SP, COLON, 97}
QSym == {AMP, EQ, QMARK, HASH, 97}
Init == \/ kind = "head" /\ s \in UNION {[1..n -> Sym] : n \in 0..MaxLen}
        \/ kind = "query" /\ s \in UNION {[1..n -> QSym] : n \in 0..MaxQuery}
Next == UNCHANGED <<kind, s>>
Spec == Init /\ [][Next]_<<kind, s>>

\* request line: step 1 method, 2 target, 3 version; the bytes gathered; pieces so far
RECURSIVE Line(_, _, _, _)
Line(b, step, data, acc) ==
    IF b = <<>> THEN [ok |-> FALSE, ps |-> acc, rest |-> <<>>]
    ELSE LET x == Head(b)  r == Tail(b) IN
         CASE x = SP /\ step < 3 -> Line(r, step + 1, <<>>, Append(acc, data))
           [] x = SP -> [ok |-> FALSE, ps |-> acc, rest |-> r]
           [] x = CR /\ step = 3 -> Line(r, step, data, acc)
           [] x \in {CR, LF} /\ step < 3 -> [ok |-> FALSE, ps |-> acc, rest |-> r]
           [] x = LF -> [ok |-> TRUE, ps |-> Append(acc, data), rest |-> r]
           [] OTHER -> Line(r, step, Append(data, x), acc)
\* headers: carriage returns are dropped, an empty line ends them
RECURSIVE Headers(_, _, _)
Headers(b, line, acc) ==
    IF b = <<>> THEN [ok |-> FALSE, hs |-> acc, rest |-> <<>>]
    ELSE LET x == Head(b)  r == Tail(b) IN
         CASE x = CR -> Headers(r, line, acc)
           [] x = LF /\ line = <<>> -> [ok |-> TRUE, hs |-> acc, rest |-> r]
           [] x = LF -> Headers(r, <<>>, IF Has(line, COLON) THEN Append(acc, Header(line)) ELSE acc)
           [] OTHER -> Headers(r, Append(line, x), acc)

HeadAgrees ==
    (kind = "head" /\ HeadEnd(s) = Len(s) /\ s # <<>> /\ ~StrayCR(s)) =>
        LET ls == Lines(s)
            ps == Split(ls[1], SP)
            a == Line(s, 1, <<>>, <<>>)
            h == Headers(a.rest, <<>>, <<>>)
            want == SelectSeq(Tail(ls), LAMBDA x : Has(x, COLON))
        IN  /\ a.ok <=> Len(ps) = 3
            /\ a.ok => /\ a.ps = ps
                       /\ h.ok /\ h.rest = <<>>
                       /\ h.hs = [i \in DOMAIN want |-> Header(want[i])]

\* query: one pass over the target
RECURSIVE Walk(_, _, _, _, _, _)
Walk(b, st, path, k, v, acc) ==     \* st: "path", "key", "val", "frag"
    LET done == IF k = <<>> /\ st = "key" THEN acc ELSE Append(acc, [n |-> k, v |-> v]) IN
    IF b = <<>> THEN [path |-> path, ps |-> IF st \in {"key", "val"} THEN done ELSE acc]
    ELSE LET x == Head(b)  r == Tail(b) IN
         CASE x = HASH -> [path |-> path, ps |-> IF st \in {"key", "val"} THEN done ELSE acc]
           [] st = "path" /\ x = QMARK -> Walk(r, "key", path, <<>>, <<>>, acc)
           [] st = "path" -> Walk(r, st, Append(path, x), k, v, acc)
           [] x = AMP -> Walk(r, "key", path, <<>>, <<>>, done)
           [] st = "key" /\ x = EQ -> Walk(r, "val", path, k, <<>>, acc)
           [] st = "key" -> Walk(r, st, path, Append(k, x), v, acc)
           [] OTHER -> Walk(r, st, path, k, Append(v, x), acc)
QueryAgrees == kind = "query" => LET t == Target(s)  w == Walk(s, "path", <<>>, <<>>, <<>>, <<>>)
                                 IN  w.path = t.path /\ w.ps = Pairs(t.query)
=============================================================================
