------------------------------- MODULE EndGen -------------------------------
(* Fetches: a URL's parts, what the handler does, and on which server.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0
Cod == INSTANCE Status
VARIABLE hist
R(S) == RandomElement(S)
Names == {"X-A", "x-a", "X-B", "Etag", "Location"}
Vals == {"1", "", "two words", "a=b; c", "x: y"}
Op(i) == [op |-> R({"status", "version", "add", "add", "set", "cookie", "ctype", "body"}), n |-> R(Names), v |-> R(Vals), c |-> R(Cod!Codes),
          ver |-> R({"HTTP/1.0", "HTTP/1.1"}), ct |-> R(0..9), own |-> R(BOOLEAN), typed |-> R(BOOLEAN),
          size |-> R({"none", "tiny", "rand", "rep", "text", "crlf", "large"}), str |-> R(BOOLEAN)]
One(h) == [ops |-> [i \in 1..R(0..6) |-> Op(i)], ends |-> R({"ok", "panic", "late", "onward"}), at |-> R({"own", "shared", "packed"}),
           path |-> R({"a", "x", "f", "none"}), query |-> R(0..6), frag |-> R(0..3), scheme |-> R({"", "http://", "https://"}),
           cred |-> R({"none", "pair", "nopass"}), host |-> R({"ip", "localhost"})]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {One(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
