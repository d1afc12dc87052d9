----------------------------- MODULE RequestGen -----------------------------
(* Descriptors of requests (kinds of lines, headers, bodies, segmentations),  *)
(* alone or in sequences on one connection, from `tlc -simulate`.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Purpose, Len0
VARIABLE hist
R(S) == RandomElement(S)
Entity == {"POST", "PUT", "PATCH"}
Other == {"GET", "OPTIONS", "DELETE", "HEAD", "TRACE", "CONNECT", "LINK", "UNLINK", "PRI"}
Bodies == IF Purpose = "C15" THEN {"multi", "bigmulti"} ELSE IF Purpose = "C14" THEN {"form", "none"} ELSE {"form", "bigform", "multi", "raw", "like", "none"}
Cls(b) == IF b = "none" THEN {"none", "zero"} ELSE {"ok"}
Segs == {"one", "bytes", "head", "head-1", "head-2", "head-3", "head+1", "1024", "1023", "random"}
Base(m, b) ==
    [m |-> m, v |-> R({"HTTP/1.1", "HTTP/1.0"}), eol |-> R({"crlf", "lf"}), line |-> "ok", path |-> R({"a", "x", "f"}), q |-> R(0..5),
     frag |-> R(BOOLEAN), hc |-> R({"std", "low", "up", "mix"}), host |-> TRUE,
     conn |-> R({"none", "close", "keep-alive", "Upgrade", "keep-alive, Upgrade", "upgrade"}), up |-> R({"none", "websocket", "WebSocket", "h2c"}),
     auth |-> R({"none", "ok", "bearer"}), cookie |-> R({"none", "one", "many", "empty"}), body |-> b, cl |-> R(Cls(b)), extra |-> R(0..3),
     seg |-> R(Segs), cuthead |-> FALSE, nocolon |-> FALSE]
Good(h) == LET m == IF Purpose = "C15" THEN R(Entity) ELSE R(R({Entity, Other}))
        IN  Base(m, IF m \in Entity THEN R(Bodies) ELSE R({"none", "form", "like"}))
Faulty(h) == LET b == [Base(R(Entity \cup Other), R({"none", "form"})) EXCEPT !.seg = "one", !.extra = R({0, 1}), !.conn = R({"none", "keep-alive"})]
              e == [b EXCEPT !.m = R(Entity)]
          IN R({[b EXCEPT !.m = R({"get", "GETT", "FOO", "P", "Put", "HEADERS"})],
                [b EXCEPT !.v = R({"HTTP/2.0", "HTTP/1.2", "http/1.1", "X", ""})],
                [b EXCEPT !.line = R({"noversion", "space", "spacepath", "word"})],
                [b EXCEPT !.path = "none"], [b EXCEPT !.host = FALSE],
                [b EXCEPT !.auth = R({"nocolon", "nouser", "bad64", "latin"})],
                [b EXCEPT !.cookie = "bad"],
                [e EXCEPT !.cl = "bad", !.body = R({"none", "form"})],
                [e EXCEPT !.cl = R({"short", "cut"}), !.body = R({"form", "raw", "none"})],
                [b EXCEPT !.cuthead = TRUE], [b EXCEPT !.nocolon = TRUE],
                [b EXCEPT !.host = FALSE, !.path = "none"], [e EXCEPT !.cl = "bad", !.cookie = "bad"]})
One == IF Purpose = "C09" THEN Faulty(hist)
       ELSE IF Purpose = "C10" /\ Len(hist) < Len0 - 1 THEN [Good(hist) EXCEPT !.conn = "keep-alive"]
       ELSE IF Purpose = "C10" /\ R(1..4) = 1 THEN Faulty(hist)
       ELSE Good(hist)
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E d \in {One} : hist' = Append(hist, d)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
