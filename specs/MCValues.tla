------------------------------ MODULE MCValues ------------------------------
(* The state machine against the history: the values of a name are those given *)
(* since it was last set or deleted; a clone shares the history up to its making. *)
EXTENDS Values
CONSTANTS MaxOps
Names == {"a", "A", ""}
Vals == {"1", "2"}
VARIABLES maps, hist      \* hist: for each map its own history
vars == <<maps, hist>>
Ops == {[op |-> k, n |-> n, v |-> v] : k \in {"set", "add"}, n \in Names, v \in Vals}
       \cup {[op |-> "del", n |-> n, v |-> ""] : n \in Names}
Init == maps = <<Empty>> /\ hist = <<<<>>>>
Total == Len(hist[1]) + (IF Len(hist) > 1 THEN Len(hist[2]) ELSE 0)
Do(m, o) == maps' = [maps EXCEPT ![m] = After(@, o)] /\ hist' = [hist EXCEPT ![m] = Append(@, o)]
Copy == Len(maps) = 1 /\ maps' = <<maps[1], maps[1]>> /\ hist' = <<hist[1], hist[1]>>
Next == Copy \/ (Total < MaxOps /\ \E m \in DOMAIN maps, o \in Ops : Do(m, o))
Spec == Init /\ [][Next]_vars
\* declarative
Most0(P) == CHOOSE x \in P \cup {0} : \A y \in P : y <= x
Mine(h, n) == SelectSeq(h, LAMBDA o : o.n = n)
Given(h, n) == LET s == Mine(h, n)
                   c == Most0({i \in DOMAIN s : s[i].op \in {"set", "del"}})
                   from == IF c > 0 /\ s[c].op = "set" THEN c ELSE c + 1
               IN [i \in 1..(Len(s) - from + 1) |-> s[from + i - 1].v]
Agree == \A m \in DOMAIN maps : \A n \in Names :
            /\ List(maps[m], n) = Given(hist[m], n)
            /\ Held(maps[m], n) <=> Given(hist[m], n) # <<>>
            /\ Answer(maps[m], n).first = (IF Given(hist[m], n) = <<>> THEN <<>> ELSE <<Given(hist[m], n)[1]>>)
=============================================================================
