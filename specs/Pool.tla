-------------------------------- MODULE Pool --------------------------------
(* The thread pool as implemented (src/utils/concurrent/thread_pool.rs): an  *)
(* idle-worker queue, a bounded task queue, a notification channel read by   *)
(* one manager thread, one message channel per worker, a sentinel reporting  *)
(* workers killed by a panic, and a handle count.  It refines PoolAbs.       *)
(* The Fix* constants set to FALSE give the code before the fix: commits.    *)
EXTENDS PoolAbs
CONSTANTS Submitters,            \* each holds one handle of the pool
          MaxPanics,             \* bound on panics
          MaxLean,               \* bound on the times no thread is to be had for a replacement
          FixWake, FixFill, FixClose, FixLean
VARIABLES sub,      \* submitter -> [pc, t, w]
          idleQ,    \* incarnations without a task
          taskQ,    \* accepted tasks not handed out
          notQ,     \* notifications to the manager: <<kind, slot>>
          slot,     \* slot -> incarnation
          wk,       \* incarnation -> [slot, st, t, rx]; st: recv, run, ending, gone
          mgr,      \* [pc, closing, lean]; lean: how often no thread was to be had
          count     \* live handles, the manager's own included
impl == <<sub, idleQ, taskQ, notQ, slot, wk, mgr, count>>
vars == <<absvars, impl>>

Slots == 1..Size
New(s) == [slot |-> s, st |-> "recv", t |-> 0, rx |-> <<>>]
Init == /\ AInit
        /\ sub = [s \in Submitters |-> [pc |-> "idle", t |-> 0, w |-> 0]]
        /\ idleQ = [i \in Slots |-> i] /\ taskQ = <<>> /\ notQ = <<>>
        /\ slot = [s \in Slots |-> s]
        /\ wk = [i \in Slots |-> New(i)]
        /\ mgr = [pc |-> "recv", closing |-> FALSE, lean |-> 0]
        /\ count = Cardinality(Submitters) + 1

Quiet == UNCHANGED absvars
SetPhase(t, p) == phase' = [phase EXCEPT ![t] = p] /\ UNCHANGED run /\ Observe
SetRun(t, r) == run' = [run EXCEPT ![t] = r] /\ UNCHANGED phase /\ Observe
Send(w, m) == wk' = [wk EXCEPT ![w].rx = Append(@, m)]

\* ------------------------------------------------ execute()
Enter(s) == \E t \in Tasks :
    /\ sub[s].pc = "idle" /\ phase[t] = "new"
    /\ \A u \in Tasks : u < t => phase[u] # "new"      \* tasks are interchangeable
    /\ sub' = [sub EXCEPT ![s] = [pc |-> "pop", t |-> t, w |-> 0]]
    /\ SetPhase(t, "calling")
    /\ UNCHANGED <<idleQ, taskQ, notQ, slot, wk, mgr, count>>
Pop(s) ==
    /\ sub[s].pc = "pop" /\ Quiet
    /\ IF idleQ # <<>>
       THEN /\ sub' = [sub EXCEPT ![s].pc = "give", ![s].w = Head(idleQ)] /\ idleQ' = Tail(idleQ)
       ELSE /\ sub' = [sub EXCEPT ![s].pc = "push"] /\ UNCHANGED idleQ
    /\ UNCHANGED <<taskQ, notQ, slot, wk, mgr, count>>
Give(s) ==
    /\ sub[s].pc = "give" /\ Quiet
    /\ Send(sub[s].w, <<"run", sub[s].t>>)
    /\ sub' = [sub EXCEPT ![s].pc = "ok"]
    /\ UNCHANGED <<idleQ, taskQ, notQ, slot, mgr, count>>
Push(s) ==
    /\ sub[s].pc = "push" /\ Quiet
    /\ IF Len(taskQ) < Cap
       THEN /\ taskQ' = Append(taskQ, sub[s].t)
            /\ sub' = [sub EXCEPT ![s].pc = IF FixWake THEN "tell" ELSE "ok"]
       ELSE /\ sub' = [sub EXCEPT ![s].pc = "err"] /\ UNCHANGED taskQ
    /\ UNCHANGED <<idleQ, notQ, slot, wk, mgr, count>>
Tell(s) ==
    /\ sub[s].pc = "tell" /\ Quiet
    /\ notQ' = Append(notQ, <<"task", 0>>)
    /\ sub' = [sub EXCEPT ![s].pc = "ok"]
    /\ UNCHANGED <<idleQ, taskQ, slot, wk, mgr, count>>
Leave(s) ==
    /\ sub[s].pc \in {"ok", "err"}
    /\ SetPhase(sub[s].t, IF sub[s].pc = "ok" THEN "accepted" ELSE "rejected")
    /\ sub' = [sub EXCEPT ![s] = [pc |-> "idle", t |-> 0, w |-> 0]]
    /\ UNCHANGED <<idleQ, taskQ, notQ, slot, wk, mgr, count>>
DropHandle(s) ==
    /\ sub[s].pc = "idle" /\ Quiet
    /\ sub' = [sub EXCEPT ![s].pc = "dropped"]
    /\ count' = count - 1
    /\ notQ' = IF FixClose /\ count = 2 THEN Append(notQ, <<"close", 0>>) ELSE notQ
    /\ UNCHANGED <<idleQ, taskQ, slot, wk, mgr>>

\* ------------------------------------------------ worker threads
Recv(w) ==
    /\ wk[w].st = "recv" /\ wk[w].rx # <<>>
    /\ LET m == Head(wk[w].rx) IN
       IF m[1] = "run"
       THEN /\ SetRun(m[2], "running")
            /\ wk' = [wk EXCEPT ![w].st = "run", ![w].t = m[2], ![w].rx = Tail(@)]
       ELSE /\ wk' = [wk EXCEPT ![w].st = "gone", ![w].rx = Tail(@)] /\ Quiet
    /\ UNCHANGED <<sub, idleQ, taskQ, notQ, slot, mgr, count>>
Finish(w, how) ==
    /\ wk[w].st = "run"
    /\ how = "panicked" => Cardinality({t \in Tasks : run[t] = "panicked"}) < MaxPanics
    /\ SetRun(wk[w].t, how)
    /\ wk' = [wk EXCEPT ![w].st = IF how = "done" THEN "idle" ELSE "fill", ![w].t = 0]
    /\ UNCHANGED <<sub, idleQ, taskQ, notQ, slot, mgr, count>>
TellIdle(w) ==
    /\ wk[w].st = "idle" /\ Quiet
    /\ notQ' = IF mgr.pc = "exit" THEN notQ ELSE Append(notQ, <<"idle", wk[w].slot>>)
    /\ wk' = [wk EXCEPT ![w].st = "recv"]
    /\ UNCHANGED <<sub, idleQ, taskQ, slot, mgr, count>>
TellFill(w) ==
    /\ wk[w].st = "fill" /\ Quiet
    /\ notQ' = IF mgr.pc = "exit" THEN notQ ELSE Append(notQ, <<"fill", wk[w].slot>>)
    /\ wk' = [wk EXCEPT ![w].st = "gone", ![w].rx = <<>>, ![w].t = 0]
    /\ UNCHANGED <<sub, idleQ, taskQ, slot, mgr, count>>

\* ------------------------------------------------ manager thread
CloseNow(closing, tq) == closing /\ tq = <<>>
Closed(w2) == [w \in DOMAIN w2 |-> IF \E s \in Slots : slot[s] = w /\ w2[w].st # "gone"
                                   THEN [w2[w] EXCEPT !.rx = Append(@, <<"close", 0>>)] ELSE w2[w]]
\* what remains of a manager step: close everything once nothing is left to hand out
Tailing(closing, tq, w2) ==
    IF CloseNow(closing, tq)
    THEN wk' = Closed(w2) /\ mgr' = [mgr EXCEPT !.pc = "exit", !.closing = TRUE]
    ELSE wk' = w2 /\ mgr' = [mgr EXCEPT !.closing = closing]
\* no thread is to be had for a replacement: it is tried again later, and the others go on meanwhile
Lean ==
    /\ mgr.pc = "recv" /\ notQ # <<>> /\ Quiet
    /\ LET n == Head(notQ)  m == [mgr EXCEPT !.lean = @ + 1] IN
       /\ n[1] = "fill" /\ FixFill /\ mgr.lean < MaxLean
       /\ IF ~FixLean THEN mgr' = [m EXCEPT !.pc = "stuck"] /\ notQ' = Tail(notQ) /\ UNCHANGED wk
          ELSE /\ notQ' = Append(Tail(notQ), n)
               /\ IF CloseNow(mgr.closing, taskQ) THEN wk' = Closed(wk) /\ mgr' = [m EXCEPT !.pc = "exit"]
                  ELSE mgr' = m /\ UNCHANGED wk
    /\ UNCHANGED <<sub, count, slot, idleQ, taskQ>>
Manage ==
    /\ mgr.pc = "recv" /\ notQ # <<>> /\ Quiet
    /\ LET n == Head(notQ) IN
       CASE n[1] = "fill" ->
              IF FixFill
              THEN LET i == Cardinality(DOMAIN wk) + 1
                       w2 == [x \in DOMAIN wk \cup {i} |-> IF x = i THEN New(n[2]) ELSE wk[x]]
                   IN  /\ slot' = [slot EXCEPT ![n[2]] = i]
                       /\ notQ' = Append(Tail(notQ), <<"idle", n[2]>>)
                       /\ wk' = IF CloseNow(mgr.closing, taskQ)
                                THEN [x \in DOMAIN w2 |-> IF (\E s \in Slots : slot'[s] = x) /\ w2[x].st # "gone"
                                        THEN [w2[x] EXCEPT !.rx = Append(@, <<"close", 0>>)] ELSE w2[x]]
                                ELSE w2
                       /\ mgr' = IF CloseNow(mgr.closing, taskQ) THEN [mgr EXCEPT !.pc = "exit"] ELSE mgr
                       /\ UNCHANGED <<idleQ, taskQ>>
              ELSE \* waited for a lock it held itself
                   /\ mgr' = [mgr EXCEPT !.pc = "stuck"] /\ notQ' = Tail(notQ)
                   /\ UNCHANGED <<slot, wk, idleQ, taskQ>>
         [] n[1] = "idle" ->
              /\ notQ' = Tail(notQ) /\ UNCHANGED slot
              /\ IF taskQ # <<>>
                 THEN /\ taskQ' = Tail(taskQ) /\ UNCHANGED idleQ
                      /\ Tailing(mgr.closing, Tail(taskQ),
                                 [wk EXCEPT ![slot[n[2]]].rx = Append(@, <<"run", Head(taskQ)>>)])
                 ELSE /\ idleQ' = Append(idleQ, slot[n[2]]) /\ UNCHANGED taskQ
                      /\ Tailing(mgr.closing, taskQ, wk)
         [] n[1] = "task" ->
              /\ notQ' = Tail(notQ) /\ UNCHANGED slot
              /\ IF idleQ # <<>> /\ taskQ # <<>>
                 THEN /\ taskQ' = Tail(taskQ) /\ idleQ' = Tail(idleQ)
                      /\ Tailing(mgr.closing, Tail(taskQ),
                                 [wk EXCEPT ![Head(idleQ)].rx = Append(@, <<"run", Head(taskQ)>>)])
                 ELSE /\ UNCHANGED taskQ
                      /\ idleQ' = IF idleQ # <<>> THEN Append(Tail(idleQ), Head(idleQ)) ELSE idleQ
                      /\ Tailing(mgr.closing, taskQ, wk)
         [] OTHER -> /\ notQ' = Tail(notQ) /\ UNCHANGED <<slot, idleQ, taskQ>>
                     /\ Tailing(TRUE, taskQ, wk)
    /\ UNCHANGED <<sub, count>>

SubStep(s) == Pop(s) \/ Give(s) \/ Push(s) \/ Tell(s) \/ Leave(s)
WorkStep(w) == Recv(w) \/ Finish(w, "done") \/ TellIdle(w) \/ TellFill(w)
Next == \/ \E s \in Submitters : Enter(s) \/ SubStep(s) \/ DropHandle(s)
        \/ \E w \in DOMAIN wk : WorkStep(w) \/ Finish(w, "panicked")
        \/ Manage \/ Lean
Fair == /\ \A s \in Submitters : WF_vars(SubStep(s)) /\ WF_vars(DropHandle(s))
        /\ \A w \in 1..(Size + MaxPanics) : WF_vars(w \in DOMAIN wk /\ WorkStep(w))
        /\ WF_vars(Manage)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
TypeOK == /\ Len(idleQ) <= Size /\ Len(taskQ) <= Cap
          /\ \A w \in DOMAIN wk : Cardinality({i \in DOMAIN wk[w].rx : wk[w].rx[i][1] = "run"}) <= 1
\* the observable behaviour is the abstract one
Refines == [][ANext]_absvars
OneAtATime == Cardinality(Running(run)) <= Size
BoundedQueue == Bounded
\* with no step of the pool in flight, every worker is idle or at work, and nothing waits beside an idle one
InFlight == \/ notQ # <<>> \/ \E s \in Submitters : sub[s].pc \notin {"idle", "dropped"}
            \/ \E w \in DOMAIN wk : (wk[w].st = "recv" /\ wk[w].rx # <<>>) \/ wk[w].st \in {"idle", "fill"}
FullStrength == (mgr.pc = "recv" /\ ~InFlight) =>
                  /\ Len(idleQ) + Cardinality(Running(run)) = Size
                  /\ Settled(phase, run)
NoStuck == mgr.pc # "stuck"
\* liveness
AllRun == \A t \in Tasks : (phase[t] = "accepted") ~> (run[t] \in {"done", "panicked"})
Returns == \A t \in Tasks : (phase[t] = "calling") ~> (phase[t] \in {"accepted", "rejected"})
AllEnd == (count = 1) ~> (mgr.pc = "exit" /\ \A w \in DOMAIN wk : wk[w].st = "gone")
DrainedAtEnd == (mgr.pc = "exit" /\ \A w \in DOMAIN wk : wk[w].st = "gone") => Drained(phase, run)
=============================================================================
