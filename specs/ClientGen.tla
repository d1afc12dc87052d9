------------------------------ MODULE ClientGen ------------------------------
(* Descriptors of URLs (C17) and of responses (C18) for the harness to spell.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Purpose, Len0
VARIABLE hist
R(S) == RandomElement(S)
GoodUrl(h) == [scheme |-> R({"", "http://", "https://"}), cred |-> R({"none", "pair", "nopass", "http"}), host |-> R({"own", "localhost"}),
               port |-> R({"own", "default", "zeros"}), path |-> R(0..6), query |-> R(0..6), frag |-> R(0..3), bad |-> "none"]
BadUrl(h) == R({[GoodUrl(h) EXCEPT !.bad = R({"colon", "nohost", "badport", "emptyport", "twoports", "at", "scheme", "slash", "space", "control", "plus", "fuzz", "lead"})],
                [GoodUrl(h) EXCEPT !.cred = R({"nouser", "word", "two"})]})
Plain(h) == [ver |-> R({0, 1}), code |-> R(0..60), line |-> 0, hs |-> [i \in 1..R(0..6) |-> R(0..13)], cl |-> R(0..3), body |-> R(0..7),
             cut |-> 0, reset |-> FALSE, seg |-> R(0..5), eol |-> 0, fuzz |-> FALSE]
Faulty(h) == LET b == Plain(h) IN
    R({[b EXCEPT !.ver = R(2..5)], [b EXCEPT !.line = R(1..9)], [b EXCEPT !.cl = R(4..16)], [b EXCEPT !.cl = R(1..3), !.cut = R(1..5)],
       [b EXCEPT !.cut = R(1..5), !.reset = TRUE], [b EXCEPT !.reset = TRUE], [b EXCEPT !.fuzz = TRUE]})
One(h) == IF Purpose = "C17" THEN (IF R(1..2) = 1 THEN GoodUrl(h) ELSE BadUrl(h)) ELSE (IF R(1..2) = 1 THEN Plain(h) ELSE Faulty(h))
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {One(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
