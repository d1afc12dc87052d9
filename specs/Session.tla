------------------------------- MODULE Session -------------------------------
(* C10, C11: one connection of the server, as implemented: a worker that      *)
(* reads, handles and answers requests one after another, and a timer thread  *)
(* that is told Pause / Update / Break over a channel and shuts the socket    *)
(* down when the connection was idle for KeepAlive. The client sends a fixed  *)
(* list of requests, any number of them before reading the answers.           *)
(* Time is discrete; a thread that can act does so before time advances       *)
(* (handlers take as long as they like, the client pauses as it likes).       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Requests,      \* sequences over {"keep","close","bad","panic"}
          KeepAlive, MaxTime,
          PauseWhileHandling \* FALSE: the original defect, the timer runs on while a handler works
VARIABLES todo,          \* requests the client has not sent yet
          wire,          \* sent, not read by the server
          phase,         \* worker: "read", "handle", "done"
          cur,           \* request being handled, with its number
          taken,         \* number of requests read
          answers,       \* responses written, in order
          first,         \* no timer during the first request
          timer,         \* "off", "run", "ended"
          deadline, chan, open, now,
          lastAnswer,    \* time of the last response
          started,       \* time at which the current request was read
          cutBy          \* who shut the socket: "none", "timer", "break", "worker"
vars == <<todo, wire, phase, cur, taken, answers, first, timer, deadline, chan, open, now, lastAnswer, started, cutBy>>
Inf == 1000
Init == /\ todo \in Requests /\ wire = <<>> /\ phase = "read" /\ cur = [n |-> 0, k |-> "none"] /\ taken = 0 /\ answers = <<>>
        /\ first = TRUE /\ timer = "off" /\ deadline = Inf /\ chan = <<>> /\ open = TRUE /\ now = 0
        /\ lastAnswer = 0 /\ started = 0 /\ cutBy = "none"
Send == /\ todo # <<>> /\ open
        /\ wire' = Append(wire, Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED <<phase, cur, taken, answers, first, timer, deadline, chan, open, now, lastAnswer, started, cutBy>>
\* the worker finishes reading a request; a bad one is answered at once and the connection is over
Read == /\ phase = "read" /\ open /\ wire # <<>>
        /\ wire' = Tail(wire) /\ taken' = taken + 1 /\ started' = now
        /\ IF Head(wire) = "bad"
           THEN /\ answers' = Append(answers, taken + 1) /\ lastAnswer' = now /\ phase' = "end" /\ UNCHANGED <<cur, chan>>
           ELSE /\ cur' = [n |-> taken + 1, k |-> Head(wire)] /\ phase' = "handle"
                /\ chan' = IF first \/ ~PauseWhileHandling THEN chan ELSE Append(chan, "pause")
                /\ UNCHANGED <<answers, lastAnswer>>
        /\ UNCHANGED <<todo, first, timer, deadline, open, now, cutBy>>
\* the handler ends: it answers (on whatever is left of the socket) or panics
Handle == /\ phase = "handle"
          /\ IF cur.k = "panic" THEN phase' = "end" /\ UNCHANGED <<answers, lastAnswer, chan, first, timer, deadline>>
             ELSE /\ answers' = IF open THEN Append(answers, cur.n) ELSE answers
                  /\ lastAnswer' = now
                  /\ IF cur.k = "keep"
                     THEN /\ phase' = "read" /\ first' = FALSE
                          /\ IF first THEN timer' = "run" /\ deadline' = now + KeepAlive /\ UNCHANGED chan
                                      ELSE chan' = Append(chan, "update") /\ UNCHANGED <<timer, deadline>>
                     ELSE phase' = "end" /\ UNCHANGED <<first, timer, deadline, chan>>
          /\ UNCHANGED <<todo, wire, cur, taken, open, now, started, cutBy>>
\* the worker is through with the connection (also because its read found the socket shut)
End == /\ phase = "end" \/ (phase = "read" /\ ~open)
       /\ phase' = "done"
       /\ IF first THEN open' = FALSE /\ cutBy' = (IF open THEN "worker" ELSE cutBy) /\ UNCHANGED chan
          ELSE chan' = Append(chan, "break") /\ UNCHANGED <<open, cutBy>>
       /\ UNCHANGED <<todo, wire, cur, taken, answers, first, timer, deadline, now, lastAnswer, started>>
Fire == /\ timer = "run" /\ deadline <= now /\ timer' = "ended" /\ open' = FALSE /\ cutBy' = (IF open THEN "timer" ELSE cutBy)
        /\ UNCHANGED <<todo, wire, phase, cur, taken, answers, first, deadline, chan, now, lastAnswer, started>>
Recv == /\ timer = "run" /\ deadline > now /\ chan # <<>> /\ chan' = Tail(chan)
        /\ IF Head(chan) = "break" THEN timer' = "ended" /\ open' = FALSE /\ cutBy' = (IF open THEN "break" ELSE cutBy) /\ UNCHANGED deadline
           ELSE /\ deadline' = (IF Head(chan) = "pause" THEN Inf ELSE now + KeepAlive) /\ UNCHANGED <<timer, open, cutBy>>
        /\ UNCHANGED <<todo, wire, phase, cur, taken, answers, first, now, lastAnswer, started>>
\* urgency: reading, ending and the timer do not let time pass; a handler and the client may
Urgent == (phase = "read" /\ open /\ wire # <<>>) \/ phase = "end" \/ (phase = "read" /\ ~open)
          \/ (timer = "run" /\ (deadline <= now \/ chan # <<>>))
Tick == now < MaxTime /\ ~Urgent /\ now' = now + 1
        /\ UNCHANGED <<todo, wire, phase, cur, taken, answers, first, timer, deadline, chan, open, lastAnswer, started, cutBy>>
Work == Read \/ Handle \/ End \/ Fire \/ Recv
Next == Send \/ Work \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Tick)
-----------------------------------------------------------------------------
\* C10
InOrder == \A i \in DOMAIN answers : answers[i] = i
OnePerRequest == Len(answers) <= taken
\* a request that may not be kept alive is the last one taken from its connection
LastIfNotKept == [][taken' > taken => (taken = 0 \/ (cur.k = "keep" /\ cur.n = taken))]_vars
\* C11
Idle == phase = "read" /\ open /\ ~first /\ wire = <<>>
\* a request that arrives at the very deadline may still lose the race
NotEarly == [][(cutBy = "none" /\ cutBy' = "timer") => (now >= lastAnswer + KeepAlive \/ started = now)]_vars
NotWhileHandling == [][(cutBy = "none" /\ cutBy' = "timer" /\ phase = "handle") => now = started]_vars
NotLate == Idle => now <= lastAnswer + KeepAlive
\* a connection that is over gives its worker back and is closed
Released == (cutBy # "none" \/ phase = "end") ~> (phase = "done" /\ ~open)
IdleEnds == (Idle /\ todo = <<>> /\ now + KeepAlive <= MaxTime) ~> (~open \/ wire # <<>>)
=============================================================================
