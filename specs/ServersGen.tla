------------------------------ MODULE ServersGen ------------------------------
(* Histories of servers: numbers of handles and listeners are taken modulo     *)
(* those there are. Addresses are the numbers of ports; 0 is any port at all,  *)
(* -1 an address of another machine. Texts are addresses as strings.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Addr(h) == R({1, 1, 2, 2, 3, 0, -1})
One(h) == LET k == R(1..22) IN
    CASE Len(h) = 0 -> [op |-> "new"]
      [] k = 1 -> [op |-> "new"]
      [] k \in {2, 3} -> [op |-> "clone", h |-> R(1..6)]
      [] k \in {4, 16, 17} -> [op |-> R({"comp", "size", "keep"}), h |-> R(1..6), n |-> R(1..3)]
      [] k \in 5..8 -> [op |-> "route", h |-> R(1..6), p |-> R(1..4)]
      [] k = 9 -> [op |-> "take", p |-> R(1..3)]
      [] k = 10 -> [op |-> "leave", p |-> R(1..3)]
      [] k \in 11..14 -> [op |-> "listen", h |-> R(1..6), how |-> R({"list", "list", "list", "text", "pair", "bad"}), addrs |-> [i \in 1..R({0, 1, 1, 2, 2, 3}) |-> Addr(<<h, i>>)]]
      [] k = 15 -> [op |-> R({"block", "idle", "idle"}), at |-> R(1..4)]
      [] OTHER -> [op |-> "ask", at |-> R(1..4), p |-> R(0..4), gzip |-> R(BOOLEAN)]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {TLCEval(One(hist))} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
