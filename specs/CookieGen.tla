------------------------------ MODULE CookieGen ------------------------------
(* Sets of cookies and lists of attributes for the harness to spell.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Opt(S) == [some |-> R(BOOLEAN), v |-> R(S)]
Item(h) == [n |-> R({"id", "path", "Max-Age", "a b", "secure", "x"}), v |-> R({"", "a", "=", "a=b=", "\"q, r\"", "1 2", "path=/"}),
            path |-> Opt({"", "/", "/a=b", "/x y"}), domain |-> Opt({"", "example.com", ".a.b", "x=y"}), maxage |-> Opt({0, 1, 0 - 1, 86400, 0 - 7, 2147483647}),
            expires |-> R(1..4) = 1, secure |-> R(BOOLEAN), httponly |-> R(BOOLEAN), samesite |-> R({"", "none", "strict", "lax"}),
            spell |-> [i \in 1..R(0..6) |-> R({"Path=/a", "Path", "path=", "DOMAIN=x=y", "Domain", "Max-Age=3", "max-age=-10", "MAX-AGE=007", "Max-Age",
                          "Max-Age=x", "max-age=", "max-age=1.5", "Expires=date", "expires=date", "Expires=soon", "Expires", "Secure", "SECURE=no", "HttpOnly", "httponly=",
                          "SameSite=Lax", "samesite=STRICT", "SameSite=none", "SameSite=other", "SameSite", "Priority=High", "name=value", "", "id", "value=9"})]]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Item(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
