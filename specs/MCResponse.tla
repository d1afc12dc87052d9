----------------------------- MODULE MCResponse -----------------------------
(* The response object as implemented: a header map updated operation by      *)
(* operation, a body, a flag whether the body is encoded. It must at any time *)
(* be what Response says about the operations so far.                         *)
EXTENDS Response
CONSTANTS MaxOps, Want     \* Want: coding negotiated for the connection, "" for none
VARIABLES ops, hdr, st, ver, wire, encoded, clen
vars == <<ops, hdr, st, ver, wire, encoded, clen>>
Small == [op |-> "body", own |-> TRUE, ct |-> "text/plain", b |-> <<1>>, len |-> 10, gzip |-> 30, deflate |-> 12, zlib |-> 18]
Big == [op |-> "body", own |-> TRUE, ct |-> "text/html", b |-> <<2>>, len |-> 1000, gzip |-> 60, deflate |-> 42, zlib |-> 48]
Ops == {[op |-> "add", n |-> "A", v |-> "1"], [op |-> "add", n |-> "A", v |-> "2"], [op |-> "set", n |-> "A", v |-> "3"],
        [op |-> "add", n |-> "B", v |-> "1"], [op |-> "cookie", v |-> "k=v"], [op |-> "cookie", v |-> "l=w"], [op |-> "set", n |-> "Set-Cookie", v |-> "x"],
        [op |-> "ctype", v |-> "image/png"], [op |-> "add", n |-> "Content-Type", v |-> "y"],
        [op |-> "status", c |-> 404], [op |-> "status", c |-> 201], [op |-> "version", v |-> "HTTP/1.0"],
        Small, Big, [Small EXCEPT !.own = FALSE], [Big EXCEPT !.own = FALSE]}
Put(h, n, v) == (n :> v) @@ h
Get(h, n) == IF n \in DOMAIN h THEN h[n] ELSE <<>>
Init == /\ ops = <<>> /\ st = 200 /\ ver = "HTTP/1.1" /\ wire = [b |-> <<>>, enc |-> "", n |-> 0] /\ encoded = FALSE /\ clen = 0
        /\ hdr = Put([n \in {"Content-Type"} |-> <<"text/plain">>], "Connection", <<"keep-alive">>)
Write(o) == LET size == SizeIn(o, Want)
                enc == Want # "" /\ (~o.own \/ size <= o.len)
                n == IF enc THEN size ELSE o.len
                h == Put(hdr, "Content-Type", <<o.ct>>)
            IN /\ clen' = n /\ wire' = [b |-> o.b, enc |-> IF enc THEN Want ELSE "", n |-> n]
               /\ encoded' = enc
               /\ hdr' = IF enc THEN Put(h, "Content-Encoding", <<Want>>)
                         ELSE IF encoded THEN [x \in DOMAIN h \ {"Content-Encoding"} |-> h[x]] ELSE h
Do(o) == /\ ops' = Append(ops, o)
         /\ st' = IF o.op = "status" THEN o.c ELSE st
         /\ ver' = IF o.op = "version" THEN o.v ELSE ver
         /\ IF o.op = "body" THEN Write(o)
            ELSE /\ UNCHANGED <<wire, encoded, clen>>
                 /\ hdr' = CASE o.op = "add" -> Put(hdr, o.n, Append(Get(hdr, o.n), o.v))
                             [] o.op = "set" -> Put(hdr, o.n, <<o.v>>)
                             [] o.op = "cookie" -> Put(hdr, "Set-Cookie", Append(Get(hdr, "Set-Cookie"), o.v))
                             [] o.op = "ctype" -> Put(hdr, "Content-Type", <<o.v>>)
                             [] OTHER -> hdr
Next == Len(ops) < MaxOps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Plain == [n \in DOMAIN hdr \ {"Content-Encoding"} |-> hdr[n]]
Agrees == /\ Plain = Headers(ops, TRUE)
          /\ st = StatusOf(ops) /\ ver = VersionOf(ops, "HTTP/1.1")
          /\ wire.b = BodyOf(ops).b /\ clen = wire.n
          /\ Get(hdr, "Content-Encoding") = (IF wire.enc = "" THEN <<>> ELSE <<wire.enc>>)
          /\ LastOp(ops, "body") # 0 => CodingAllowed(BodyOf(ops), Want, wire.enc, wire.n)
ASSUME \A x \in {<<tGzip, "gzip">>, <<tDeflate, "deflate">>, <<tZlib, "zlib">>} : Best(x[1]) = x[2]
ASSUME Best(tZlib \o <<COMMA, SP>> \o tDeflate) = "deflate" /\ Best(tDeflate \o <<COMMA>> \o tGzip \o <<SEMI, SP, 113, 61, 48>>) = "deflate"
ASSUME Best(<<>>) = "" /\ Best(<<COMMA>> \o <<98, 114>>) = "" /\ Best(<<71, 90, 73, 80, SEMI, 113, 61, 48, 46, 53>>) = "gzip"
=============================================================================
