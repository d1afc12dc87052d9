------------------------------- MODULE Server -------------------------------
(* C16: many connections over a pool of workers. A connection occupies a      *)
(* worker from its first request until it is closed; waiting connections are  *)
(* taken in any order; a handler that panics costs its connection, its worker *)
(* is replaced. A response is written to the connection of its request.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conns, Workers, Longest
Kinds == {"keep", "close", "panic"}
VARIABLES script,     \* script[c]: requests connection c still has to send
          st,         \* st[c]: "new", "waiting", "reading", "handling", "closed"
          inwire,     \* inwire[c]: requests sent and not read, each <<c, number, kind>>
          cur,        \* cur[c]: request being handled
          sent, got,  \* sent[c]: number of requests sent; got[c]: answers received
          runs,       \* runs[c]: numbers of the requests handled
          live        \* workers alive (busy or not)
vars == <<script, st, inwire, cur, sent, got, runs, live>>
Busy == Cardinality({c \in Conns : st[c] \in {"reading", "handling"}})
None == <<"none", 0, "none">>
Init == /\ script \in [Conns -> UNION {[1..n -> Kinds] : n \in 1..Longest}]
        /\ st = [c \in Conns |-> "new"] /\ inwire = [c \in Conns |-> <<>>] /\ cur = [c \in Conns |-> None]
        /\ sent = [c \in Conns |-> 0] /\ got = [c \in Conns |-> <<>>] /\ runs = [c \in Conns |-> <<>>] /\ live = Workers
Connect(c) == st[c] = "new" /\ st' = [st EXCEPT ![c] = "waiting"] /\ UNCHANGED <<script, inwire, cur, sent, got, runs, live>>
\* the client waits for each answer, and leaves when it has none to send
Send(c) == /\ st[c] \in {"waiting", "reading"} /\ script[c] # <<>> /\ Len(got[c]) = sent[c]
           /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ script' = [script EXCEPT ![c] = Tail(@)]
           /\ inwire' = [inwire EXCEPT ![c] = Append(@, <<c, sent[c] + 1, Head(script[c])>>)]
           /\ UNCHANGED <<st, cur, got, runs, live>>
Leave(c) == /\ st[c] = "reading" /\ script[c] = <<>> /\ inwire[c] = <<>> /\ Len(got[c]) = sent[c]
            /\ st' = [st EXCEPT ![c] = "closed"] /\ UNCHANGED <<script, inwire, cur, sent, got, runs, live>>
Assign(c) == /\ st[c] = "waiting" /\ Busy < live /\ st' = [st EXCEPT ![c] = "reading"]
             /\ UNCHANGED <<script, inwire, cur, sent, got, runs, live>>
Read(c) == /\ st[c] = "reading" /\ inwire[c] # <<>>
           /\ cur' = [cur EXCEPT ![c] = Head(inwire[c])] /\ inwire' = [inwire EXCEPT ![c] = Tail(@)]
           /\ runs' = [runs EXCEPT ![c] = Append(@, Head(inwire[c])[2])]
           /\ st' = [st EXCEPT ![c] = "handling"] /\ UNCHANGED <<script, sent, got, live>>
Finish(c) == /\ st[c] = "handling" /\ cur[c][3] # "panic"
             /\ got' = [got EXCEPT ![c] = Append(@, cur[c])]
             /\ st' = [st EXCEPT ![c] = IF cur[c][3] = "keep" THEN "reading" ELSE "closed"]
             /\ UNCHANGED <<script, inwire, cur, sent, runs, live>>
Panic(c) == /\ st[c] = "handling" /\ cur[c][3] = "panic" /\ st' = [st EXCEPT ![c] = "closed"] /\ live' = live - 1
            /\ UNCHANGED <<script, inwire, cur, sent, got, runs>>
Refill == live < Workers /\ live' = live + 1 /\ UNCHANGED <<script, st, inwire, cur, sent, got, runs>>
Work(c) == Assign(c) \/ Read(c) \/ Panic(c) \/ Refill
Next == \E c \in Conns : Connect(c) \/ Send(c) \/ Leave(c) \/ Work(c) \/ Finish(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Connect(c) \/ Send(c) \/ Leave(c)) /\ WF_vars(Finish(c)) /\ SF_vars(Assign(c)) /\ WF_vars(Read(c) \/ Panic(c)) /\ WF_vars(Refill)
-----------------------------------------------------------------------------
Own == \A c \in Conns : \A i \in DOMAIN got[c] : got[c][i][1] = c /\ got[c][i][2] = i
Once == \A c \in Conns : runs[c] = [i \in 1..Len(runs[c]) |-> i] /\ Len(runs[c]) <= sent[c]
Bounded == Busy <= Workers
\* every connection ends, answered except where its handler panicked
Served == \A c \in Conns : <>(st[c] = "closed" /\ (Len(got[c]) = sent[c] \/ (cur[c][3] = "panic" /\ Len(got[c]) = sent[c] - 1)))
FullStrength == []<>(live = Workers)
\* reached states include as many handlers at once as there are workers, also after a panic (expected to fail as invariants)
NeverFull == Cardinality({c \in Conns : st[c] = "handling"}) < Workers \/ \A c \in Conns : cur[c][3] # "panic"
=============================================================================
