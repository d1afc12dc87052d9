----------------------------- MODULE SessionGen -----------------------------
(* Scripts for one or two connections: pauses and handler times in tenths of  *)
(* the keep-alive time, and how each connection ends.                         *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE hist
R(S) == RandomElement(S)
Step(h) == [gap |-> R({0, 2, 5, 6}), dur |-> R({0, 0, 1, 5, 13, 25})]
Script(h) == LET n == R(1..4) IN [steps |-> [i \in 1..n |-> Step(i)], how |-> R({"idle", "idle", "close", "bad", "panic", "leave"})]
Init == hist = <<>>
Next == hist = <<>> /\ \E k \in {R({200, 300, 400})}, c \in {R(1..2)} : hist' = <<[k |-> k, conns |-> [i \in 1..c |-> Script(i)]]>>
Spec == Init /\ [][Next]_hist
Emit == hist # <<>> => PrintT(ToJson(hist[1]))
=============================================================================
