------------------------------ MODULE Scarcity ------------------------------
(* What a shortage of threads or descriptors may do to a server's clients:    *)
(* shared by the model (MCScarcity) and the recordings (ScarcityTrace).        *)
EXTENDS Naturals, Sequences, FiniteSets
\* What one connection that is served for longer may need: the server has it four times and its idle check, when it
\* starts, reads the time zone; twice that is enough in any case.
FdsFor1 == 8
ThreadsFor1 == 1
Ample == 1000
\* descriptors and threads to spare beyond those of a server without connections, and what must work then
Suffices(fds, threads, conns) == fds >= FdsFor1 * conns /\ threads >= ThreadsFor1 * conns
\* the answers of a connection: in the order of the requests, none left out, nothing nobody asked for
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
\* A request on a connection that has had n answers before, alone or among others, must be answered
\*  - if nothing is short,
\*  - if only threads are short and it is the connection's first (answering takes no further thread) or the
\*    connection has been kept before (its threads are there).
MustAnswer(fds, threads, n) == fds >= Ample /\ (threads >= Ample \/ n # 1)
\* A request that was not answered, and no end of the connection either: only while descriptors are short and
\* other connections have them, or there are none.
MayWait(fds, others) == fds < Ample /\ (others > 0 \/ fds = 0)
=============================================================================
