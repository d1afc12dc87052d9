------------------------------ MODULE Response ------------------------------
(* C12, C13: what a sequence of response operations must put on the wire,     *)
(* declaratively, from the whole sequence; and which coding a body may get.   *)
EXTENDS Bytes, TLC
S == INSTANCE Status

\* an operation as effects on headers: [k |-> "add" / "set", n |-> name, v |-> value]
Eff(o) == CASE o.op = "add" -> <<[k |-> "add", n |-> o.n, v |-> o.v]>>
            [] o.op = "set" -> <<[k |-> "set", n |-> o.n, v |-> o.v]>>
            [] o.op = "cookie" -> <<[k |-> "add", n |-> "Set-Cookie", v |-> o.v]>>
            [] o.op = "ctype" -> <<[k |-> "set", n |-> "Content-Type", v |-> o.v]>>
            [] o.op = "body" -> <<[k |-> "set", n |-> "Content-Type", v |-> o.ct]>>
            [] OTHER -> <<>>
RECURSIVE Effects(_)
Effects(ops) == IF ops = <<>> THEN <<>> ELSE Eff(Head(ops)) \o Effects(Tail(ops))
Start(keep) == <<[k |-> "set", n |-> "Content-Type", v |-> "text/plain"]>>
               \o (IF keep THEN <<[k |-> "set", n |-> "Connection", v |-> "keep-alive"]>> ELSE <<>>)
\* the values of a name: those added since it was last set, after the value it was set to
ValuesOf(es, n) ==
    LET mine == SelectSeq(es, LAMBDA x : x.n = n)
        P == {i \in DOMAIN mine : mine[i].k = "set"}
        from == IF P = {} THEN 1 ELSE Most(P)
    IN TLCEval([i \in 1..(Len(mine) - from + 1) |-> mine[from + i - 1].v])
NamesIn(es) == {es[i].n : i \in DOMAIN es}
Headers(ops, keep) == LET es == Start(keep) \o Effects(ops) IN TLCEval([n \in NamesIn(es) |-> ValuesOf(es, n)])
LastOp(ops, k) == LET P == {i \in DOMAIN ops : ops[i].op = k} IN IF P = {} THEN 0 ELSE Most(P)
StatusOf(ops) == LET i == LastOp(ops, "status") IN IF i = 0 THEN 200 ELSE ops[i].c
VersionOf(ops, v) == LET i == LastOp(ops, "version") IN IF i = 0 THEN v ELSE ops[i].v
NoBody == [b |-> <<>>, len |-> 0, own |-> TRUE, gzip |-> 0, deflate |-> 0, zlib |-> 0]
BodyOf(ops) == LET i == LastOp(ops, "body") IN IF i = 0 THEN NoBody ELSE ops[i]

-----------------------------------------------------------------------------
\* Accept-Encoding
tGzip == <<103, 122, 105, 112>>
tDeflate == <<100, 101, 102, 108, 97, 116, 101>>
tZlib == <<122, 108, 105, 98>>
\* a weight of zero: 0, 0., 0.0, 0.00, 0.000
IsZero(q) == q # <<>> /\ q[1] = 48 /\ (Len(q) > 1 => q[2] = 46) /\ \A i \in 3..Len(q) : q[i] = 48
Refuses(params) == \E i \in DOMAIN params : LET t == Trim(params[i]) IN Starts(t, <<113, 61>>) /\ IsZero(Drop(t, 2))
Coding(piece) == LET ps == Split(piece, SEMI) IN [name |-> Lower(Trim(ps[1])), no |-> Refuses(Tail(ps))]
Listed(ae, c) == \E i \in DOMAIN ae : Coding(ae[i]) = [name |-> c, no |-> FALSE]
Best(ae) == LET ps == Split(ae, COMMA)
            IN IF Listed(ps, tGzip) THEN "gzip" ELSE IF Listed(ps, tDeflate) THEN "deflate"
               ELSE IF Listed(ps, tZlib) THEN "zlib" ELSE ""
\* ae: <<>> without the header, else <<value>>
Wanted(comp, ae) == IF ~comp \/ ae = <<>> THEN "" ELSE Best(ae[1])
\* body b sent as n bytes with Content-Encoding enc; b[c] is the length of its form in coding c
SizeIn(b, c) == CASE c = "gzip" -> b.gzip [] c = "deflate" -> b.deflate [] OTHER -> b.zlib
CodingAllowed(b, want, enc, n) ==
    IF enc = "" THEN n = b.len /\ (want = "" \/ 2 * SizeIn(b, want) + 64 > b.len)
    ELSE enc = want /\ (b.own => n <= b.len)
=============================================================================
