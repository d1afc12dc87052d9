----------------------------- MODULE MCScarcity -----------------------------
(* A server's connections as implemented, with every step that takes a        *)
(* descriptor or a thread: accepting, duplicating the stream (four times for   *)
(* a connection that is kept), starting the idle check, replacing a worker     *)
(* that a handler's panic has killed. The environment decides how much there   *)
(* is of each.                                                                 *)
EXTENDS Scarcity
CONSTANTS Conns, Workers, LowFds, LowThreads, MaxAsk, MaxOpen, MaxPanic, MaxShort,
          Retry,      \* TRUE: original defect, a kept connection tries to duplicate its stream for ever
          Rude,       \* TRUE: original defect, without idle check an answer is written that nobody asked for
          Giveup      \* TRUE: original defect, a worker that cannot be replaced at once never is
VARIABLES at, watch, here, asked, done, extra, shut, dead, lost, fds, threads, opened, shorts, panics, lone
vars == <<at, watch, here, asked, done, extra, shut, dead, lost, fds, threads, opened, shorts, panics, lone>>
\* descriptors a connection holds at a step
Holds(c) == (CASE at[c] \in {"out", "backlog"} -> 0 [] at[c] \in {"queued", "first", "kept"} -> 1
               [] at[c] \in {"read1", "kept2", "loop"} -> 2 [] at[c] = "readn" -> 3)
            + IF watch[c] THEN 1 ELSE 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Holds(c) + Sum(S \ {c})
Used == Sum(Conns)
FdLeft == Used < fds
\* threads beyond the workers a server starts with
ThreadLeft == Cardinality({c \in Conns : watch[c]}) < threads + dead
Working == {c \in Conns : at[c] \notin {"out", "backlog", "queued"}}
Init == /\ at = [c \in Conns |-> "out"] /\ watch = [c \in Conns |-> FALSE] /\ here = [c \in Conns |-> FALSE]
        /\ asked = [c \in Conns |-> 0] /\ done = [c \in Conns |-> 0] /\ extra = 0 /\ shut = [c \in Conns |-> FALSE]
        /\ dead = 0 /\ lost = 0 /\ fds = Ample /\ threads = Ample /\ opened = 0 /\ shorts = 0 /\ panics = 0 /\ lone = [c \in Conns |-> FALSE]
\* ---- the environment
Environment == UNCHANGED <<at, watch, here, asked, done, extra, shut, dead, lost, opened, panics, lone>>
Short == /\ shorts < MaxShort /\ shorts' = shorts + 1 /\ Environment
         /\ \/ fds = Ample /\ fds' = LowFds /\ UNCHANGED threads
            \/ threads = Ample /\ threads' = LowThreads /\ UNCHANGED fds
Lift == /\ fds # Ample \/ threads # Ample
        /\ fds' = Ample /\ threads' = Ample /\ UNCHANGED shorts /\ Environment
Connect(c) == /\ at[c] = "out" /\ ~watch[c] /\ ~here[c] /\ opened < MaxOpen
              /\ at' = [at EXCEPT ![c] = "backlog"] /\ here' = [here EXCEPT ![c] = TRUE] /\ opened' = opened + 1
              /\ asked' = [asked EXCEPT ![c] = 1] /\ done' = [done EXCEPT ![c] = 0] /\ shut' = [shut EXCEPT ![c] = FALSE]
              /\ lone' = [d \in Conns |-> d = c /\ \A e \in Conns \ {c} : at[e] = "out" /\ ~watch[e]]
              /\ UNCHANGED <<watch, extra, dead, lost, fds, threads, shorts, panics>>
Ask(c) == /\ here[c] /\ at[c] # "out" /\ done[c] = asked[c] /\ asked[c] < MaxAsk
          /\ asked' = [asked EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<at, watch, here, done, extra, shut, dead, lost, fds, threads, opened, shorts, panics, lone>>
Leave(c) == /\ here[c] /\ here' = [here EXCEPT ![c] = FALSE]
            /\ UNCHANGED <<at, watch, asked, done, extra, shut, dead, lost, fds, threads, opened, shorts, panics, lone>>
\* ---- the server
Server == UNCHANGED <<here, asked, fds, threads, opened, shorts, panics, lone>>
Same == UNCHANGED <<watch, done, extra, shut, dead, lost>>
Goto(c, s) == at' = [at EXCEPT ![c] = s]
Accept(c) == at[c] = "backlog" /\ FdLeft /\ Goto(c, "queued") /\ Server /\ Same
Take(c) == at[c] = "queued" /\ Cardinality(Working) + dead + lost < Workers /\ Goto(c, "first") /\ Server /\ Same
Or(c, s) == Goto(c, IF FdLeft THEN s ELSE "out") /\ Server /\ Same
Clone1(c) == at[c] = "first" /\ Or(c, "read1")
Clone2(c) == at[c] = "kept" /\ Or(c, "kept2")
Answer(c) == /\ at[c] \in {"read1", "readn"} /\ done[c] < asked[c] /\ ~shut[c]
             /\ done' = [done EXCEPT ![c] = @ + 1] /\ Goto(c, IF at[c] = "read1" THEN "kept" ELSE "loop")
             /\ Server /\ UNCHANGED <<watch, extra, shut, dead, lost>>
Panic(c) == /\ at[c] \in {"read1", "readn"} /\ done[c] < asked[c] /\ ~shut[c] /\ panics < MaxPanic /\ panics' = panics + 1
            /\ Goto(c, "out") /\ dead' = dead + 1
            /\ lone' = [lone EXCEPT ![c] = FALSE]
            /\ UNCHANGED <<here, asked, fds, threads, opened, shorts, watch, done, extra, shut, lost>>
\* the end of the client's bytes, or the connection was shut down by the idle check
Eof(c) == /\ at[c] \in {"read1", "readn"} /\ (shut[c] \/ ~here[c]) /\ Goto(c, "out") /\ Server /\ Same
\* the idle check: one more descriptor and a thread
Watch(c) == /\ at[c] = "kept2"
            /\ IF FdLeft /\ ThreadLeft
               THEN Goto(c, "loop") /\ watch' = [watch EXCEPT ![c] = TRUE] /\ UNCHANGED extra
               ELSE /\ Goto(c, IF Rude THEN "loop" ELSE "out") /\ extra' = (IF Rude /\ FdLeft THEN 1 ELSE extra) /\ UNCHANGED watch
            /\ Server /\ UNCHANGED <<done, shut, dead, lost>>
CloneN(c) == /\ at[c] = "loop"
             /\ IF FdLeft THEN Goto(c, "readn") ELSE ~Retry /\ Goto(c, "out")
             /\ Server /\ Same
\* the idle check ends: with its connection, or when nothing has been asked for a while
Unwatch(c) == /\ watch[c] /\ (at[c] = "out" \/ (done[c] = asked[c] /\ at[c] \in {"loop", "readn"} /\ ~lone[c]))
              /\ watch' = [watch EXCEPT ![c] = FALSE] /\ shut' = [shut EXCEPT ![c] = TRUE]
              /\ Server /\ UNCHANGED <<at, done, extra, dead, lost>>
\* a worker is replaced; its thread is gone by then
Replace == /\ dead > 0
           /\ IF Cardinality({c \in Conns : watch[c]}) < threads + dead THEN dead' = dead - 1 /\ UNCHANGED lost
              ELSE Giveup /\ dead' = dead - 1 /\ lost' = lost + 1
           /\ UNCHANGED <<at, watch, done, extra, shut>> /\ Server
Steps(c) == Accept(c) \/ Take(c) \/ Clone1(c) \/ Clone2(c) \/ Answer(c) \/ Eof(c) \/ Watch(c) \/ CloneN(c)
Next == \/ Short \/ Lift \/ Replace
        \/ \E c \in Conns : Connect(c) \/ Ask(c) \/ Leave(c) \/ Steps(c) \/ Panic(c) \/ Unwatch(c)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Replace)
        /\ \A c \in Conns : WF_vars(Steps(c)) /\ WF_vars(watch[c] /\ at[c] = "out" /\ Unwatch(c))
\* ---- what must hold
NothingUnasked == extra = 0 /\ \A c \in Conns : done[c] <= asked[c]
Watched == \A c \in Conns : at[c] \in {"loop", "readn"} => watch[c] \/ shut[c]
FullStrength == lost = 0
OutMeansNothingHeld == \A c \in Conns : at[c] = "out" /\ ~watch[c] => Holds(c) = 0
\* Whatever was short, and even while it still is: when the clients leave, everything they held is given back
Left == \A c \in Conns : ~here[c]
Nothing == Used = 0 /\ \A c \in Conns : at[c] = "out"
GivenBack == []<>(Left => Nothing)
\* and a connection that has the server to itself is served (LowFds and LowThreads suffice for one)
Alone == \A c \in Conns : (lone[c] /\ done[c] < asked[c]) ~> (done[c] = asked[c] \/ ~lone[c] \/ ~here[c])
=============================================================================
