----------------------------- MODULE ResponseGen -----------------------------
(* Sequences of response operations and requests for them.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Purpose, Len0
Cod == INSTANCE Status
VARIABLE hist
R(S) == RandomElement(S)
Names == {"X-A", "x-a", "X-B", "Etag", "Set-Cookie", "Location"}
Vals == {"1", "", "two words", "a=b; c", "x: y"}
Kinds(h) == IF Purpose = "C13" THEN {"body", "ctype", "add"} ELSE {"status", "version", "add", "set", "cookie", "ctype", "body"}
Op(h) == [op |-> R(Kinds(h)), n |-> R(Names), v |-> R(Vals), c |-> R(Cod!Codes),
          ver |-> R({"HTTP/1.0", "HTTP/1.1"}), ct |-> R(0..9), own |-> R(BOOLEAN), typed |-> R(BOOLEAN),
          size |-> R({"none", "tiny", "rand", "rep", "rep", "large"}), str |-> R(BOOLEAN)]
Step(h) == IF Purpose = "C13" /\ Len(h) % 2 = 0 THEN [Op(h) EXCEPT !.op = "body"] ELSE Op(h)
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Step(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Request(h) == [ver |-> R({"HTTP/1.1", "HTTP/1.0"}), keep |-> R(BOOLEAN), comp |-> IF Purpose = "C13" THEN R({TRUE, TRUE, TRUE, FALSE}) ELSE R({FALSE, FALSE, TRUE}),
               cut |-> R(0..Len0),
               ae |-> LET P == SUBSET {"gzip", "deflate", "zlib", "br", "identity", "GZip", "*"}
                          s == R(P)  f == R([s -> {"", ";q=0", ";q=0.5", "; q=1", ";q=0.0", " ;q=0.001"}])
                      IN [x \in s |-> f[x]]]
Emit == Len(hist) = Len0 => PrintT(ToJson([ops |-> SubSeq(hist, 1, R(0..Len0)), req |-> Request(hist)]))
=============================================================================
