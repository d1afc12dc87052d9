------------------------------- MODULE Servers -------------------------------
(* C26: servers, clones of them and their listeners in one process.           *)
(* A server made anew has no routes; a clone shares the routes of the server  *)
(* it was made of, whichever of the two a route is registered with and        *)
(* whenever, while settings are each one's own. Listening takes the first     *)
(* address that is to be had, with the settings of that moment, or is an      *)
(* error that leaves nothing behind; the same server may listen any number of *)
(* times, each listener with workers of its own.                              *)
EXTENDS Integers, Sequences, FiniteSets
\* a history of steps on handles, numbered as they come to be:
\*   [op |-> "new"], [op |-> "clone", h], [op |-> "comp", h], [op |-> "size", h, n], [op |-> "keep", h, n], [op |-> "route", h, p, id]
\* what it means is said of the history itself
Makes(hist) == SelectSeq(hist, LAMBDA o : o.op \in {"new", "clone"})
RECURSIVE Oldest(_, _)
\* the server that handle h was cloned of, in any number of steps
Oldest(makes, h) == IF makes[h].op = "new" THEN h ELSE Oldest(makes, makes[h].h)
Family(hist, h) == LET m == Makes(hist) IN {k \in DOMAIN m : Oldest(m, k) = Oldest(m, h)}
\* the handler of path p at a listener started with handle h
Handler(hist, h, p) == LET f == Family(hist, h)
                           s == {i \in DOMAIN hist : hist[i].op = "route" /\ hist[i].h \in f /\ hist[i].p = p}
                       IN IF s = {} THEN 0 ELSE hist[CHOOSE i \in s : TRUE].id
\* settings: those of the handle, or of the one it was cloned of before that; Begin(hist, h): where handle h comes to be
Begin(hist, h) == CHOOSE i \in DOMAIN hist : hist[i].op \in {"new", "clone"} /\ Len(Makes(SubSeq(hist, 1, i))) = h
RECURSIVE Setting(_, _, _, _)
Setting(hist, h, op, default) ==
    LET s == {i \in DOMAIN hist : hist[i].op = op /\ hist[i].h = h}  b == Begin(hist, h) IN
    IF s # {} THEN hist[CHOOSE i \in s : \A j \in s : j <= i].n
    ELSE IF hist[b].op = "new" THEN default
    ELSE Setting(SubSeq(hist, 1, b - 1), hist[b].h, op, default)
Compresses(hist, h) == Setting(hist, h, "comp", 0) = 1
Workers(hist, h, default) == Setting(hist, h, "size", default)
Keeps(hist, h) == Setting(hist, h, "keep", 30000)
\* listening: addrs is a sequence of addresses, free the set of those to be had; 0: none
First(addrs, free) == LET s == {i \in DOMAIN addrs : addrs[i] \in free} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
=============================================================================
