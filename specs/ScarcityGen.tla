----------------------------- MODULE ScarcityGen ------------------------------
(* Histories of a server that runs short: connections are numbers modulo the   *)
(* size of the pool.                                                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
One(h) == LET k == R(1..24) IN
    CASE Len(h) = 0 -> [op |-> "pool", n |-> R(1..4)]
      [] k \in 1..3 -> [op |-> R({"fds", "threads"}), n |-> R(0..14)]
      [] k = 4 -> [op |-> "threads", n |-> R(0..2)]
      [] k \in {5, 6} -> [op |-> "lift"]
      [] k = 7 -> [op |-> "crowd", n |-> R({1, 3, 8, 20, 40})]
      [] k = 8 -> [op |-> R({"fetch", "fresh"})]
      [] k \in {9, 10} -> [op |-> "leave", c |-> R(0..3)]
      [] OTHER -> [op |-> "ask", c |-> R(0..3), panic |-> R(1..8) = 1]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {TLCEval(One(hist))} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
