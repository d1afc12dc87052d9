------------------------------- MODULE LimitGen -------------------------------
(* Limits, the places they are given at, and arrivals of requests.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Item(h) == LET sec == R({40, 80, 150, 250, 0}) IN
           [kind |-> R({"own", "filters", "group", "pair", "inner", "both"}), section |-> sec, count |-> R(1..4), interval |-> R({0, 0 - 3, 8, 20, 45}),
            idle |-> R({0, 0, 120, 300}), keep |-> R(BOOLEAN), lanes |-> R(1..8),
            gaps |-> [i \in 1..R(3..11) |-> R({0, 0, 0, 0, 3, 15, 40, 90})]]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Item(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
