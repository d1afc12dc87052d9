---------------------------- MODULE ScarcityTrace -----------------------------
(* C27: what a server that runs short of descriptors and threads did.          *)
EXTENDS Scarcity, Integers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* fds, threads: what there is to spare; hurt: handlers have panicked and whether they were all replaced was not seen yet;
\* cs: the open connections, with the answers they have had and the least there was since the last one was asked for
VARIABLES l, bad, pool, fds, threads, hurt, cs
E == Trace[l]
If(c, x) == IF c THEN {x} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b
Others(c) == Cardinality(DOMAIN cs \ {c})
Crowded(c) == MayWait(fds, Others(c)) \/ (hurt /\ threads < Ample)
AskWrong == LET x == cs[E.c]  f == Min(x.f, fds)  t == Min(x.t, threads) IN
    CASE E.res = "answer" -> If(E.kind = "panic", "an answer without a handler's")
      [] E.res = "end" -> If(E.kind # "panic" /\ MustAnswer(f, t, x.n), "not answered")
      [] E.res = "silent" -> If(~Crowded(E.c), "neither answered nor ended")
      [] OTHER -> {"not the answer"}
Wrong == CASE E.e = "ask" -> AskWrong
           [] E.e = "leave" -> If(E.odd, "bytes nobody asked for")
           [] E.e = "fresh" -> If(~E.ok /\ Suffices(fds, threads, E.conns), "new connections are not served")
           [] E.e = "fetch" -> If(E.res \notin {"ok", "error"} \/ (E.res = "error" /\ fds >= Ample /\ threads >= Ample), E.res)
           [] E.e = "left" -> If(E.fds # 0, "descriptors not given back") \cup If(E.threads # 0, "threads")
           [] E.e = "idle" -> If(~E.ended, "kept beyond its time")
           [] E.e = "refused" -> {"nobody listens"}
           [] E.e = "died" -> {"the process ended"}
           [] OTHER -> {}
Init == l = 1 /\ bad = <<>> /\ pool = 0 /\ fds = Ample /\ threads = Ample /\ hurt = FALSE /\ cs = <<>>
NewFds == CASE E.e = "case" -> Ample [] E.e = "limit" -> (CASE E.what = "fds" -> E.n [] E.what = "lift" -> Ample [] OTHER -> fds) [] OTHER -> fds
NewThreads == CASE E.e = "case" -> Ample [] E.e = "limit" -> (CASE E.what = "threads" -> E.n [] E.what = "lift" -> Ample [] OTHER -> threads) [] OTHER -> threads
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ pool' = (IF E.e = "case" THEN E.pool ELSE pool)
        /\ fds' = NewFds /\ threads' = NewThreads
        /\ hurt' = CASE E.e = "case" -> FALSE
                     [] E.e = "fresh" -> hurt /\ ~(E.ok /\ fds >= Ample /\ threads >= Ample)
                     [] E.e = "ask" -> hurt \/ E.kind = "panic"
                     [] OTHER -> hurt
        /\ cs' = CASE E.e = "case" -> <<>>
                   [] E.e = "open" -> (E.c :> [n |-> 0, f |-> fds, t |-> threads]) @@ cs
                   [] E.e = "leave" -> [c \in DOMAIN cs \ {E.c} |-> cs[c]]
                   [] E.e = "limit" -> [c \in DOMAIN cs |-> [cs[c] EXCEPT !.f = Min(@, NewFds), !.t = Min(@, NewThreads)]]
                   [] E.e = "ask" -> [cs EXCEPT ![E.c] = [n |-> @.n + (IF E.res = "answer" THEN 1 ELSE 0),
                                                         f |-> IF E.res = "answer" /\ ~E.again THEN fds ELSE Min(@.f, fds),
                                                         t |-> IF E.res = "answer" /\ ~E.again THEN threads ELSE Min(@.t, threads)]]
                   [] OTHER -> cs
        /\ bad' = LET w == Wrong IN IF w = {} THEN bad ELSE Append(bad, [l |-> l, p |-> "C27", why |-> w])
Spec == Init /\ [][Next]_<<l, bad, pool, fds, threads, hurt, cs>>
Report == l > Len(Trace) => PrintT(ToJson([done |-> l - 1, bad |-> bad]))
=============================================================================
