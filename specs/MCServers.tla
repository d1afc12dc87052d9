------------------------------ MODULE MCServers ------------------------------
(* The servers as implemented: a handle is settings and a reference to shared *)
(* routes; listening sets up workers, tries the addresses one by one and then *)
(* accepts. Calls run at the same time as each other, as registrations and as *)
(* strangers that take and leave ports.                                       *)
EXTENDS Servers
CONSTANTS Settings,      \* the settings that are changed, of {"comp", "size"}
          MaxHandles, Ports, Paths, Calls, MaxRoutes,
          Unwraps,      \* TRUE: the original defect, a caller that gets no address panics
          Copies        \* TRUE: a clone gets a copy of the routes instead of sharing them
VARIABLES hist, handles, roots, holder, calls, pools
vars == <<hist, handles, roots, holder, calls, pools>>
Free == {p \in Ports : holder[p] = 0}
Idle == [at |-> "idle", h |-> 0, addrs |-> <<>>, i |-> 0, comp |-> 0, size |-> 0, root |-> 0, seen |-> <<>>, then |-> <<>>]
Init == hist = <<>> /\ handles = <<>> /\ roots = <<>> /\ holder = [p \in Ports |-> 0] /\ calls = [c \in Calls |-> Idle] /\ pools = 0
New == /\ Len(handles) < MaxHandles /\ hist' = Append(hist, [op |-> "new"])
       /\ roots' = Append(roots, [p \in Paths |-> 0]) /\ handles' = Append(handles, [root |-> Len(roots) + 1, comp |-> 0, size |-> 4])
       /\ UNCHANGED <<holder, calls, pools>>
Clone(h) == /\ Len(handles) < MaxHandles /\ hist' = Append(hist, [op |-> "clone", h |-> h])
            /\ IF Copies THEN roots' = Append(roots, roots[handles[h].root]) /\ handles' = Append(handles, [handles[h] EXCEPT !.root = Len(roots) + 1])
               ELSE handles' = Append(handles, handles[h]) /\ UNCHANGED roots
            /\ UNCHANGED <<holder, calls, pools>>
Comp(h) == /\ "comp" \in Settings /\ handles[h].comp = 0 /\ hist' = Append(hist, [op |-> "comp", h |-> h, n |-> 1])
           /\ handles' = [handles EXCEPT ![h].comp = 1] /\ UNCHANGED <<roots, holder, calls, pools>>
Size(h) == /\ "size" \in Settings /\ handles[h].size = 4 /\ hist' = Append(hist, [op |-> "size", h |-> h, n |-> 1])
           /\ handles' = [handles EXCEPT ![h].size = 1] /\ UNCHANGED <<roots, holder, calls, pools>>
Routes == Cardinality({i \in DOMAIN hist : hist[i].op = "route"})
Route(h, p) == /\ Routes < MaxRoutes /\ roots[handles[h].root][p] = 0
               /\ hist' = Append(hist, [op |-> "route", h |-> h, p |-> p, id |-> Routes + 1])
               /\ roots' = [roots EXCEPT ![handles[h].root][p] = Routes + 1] /\ UNCHANGED <<handles, holder, calls, pools>>
Stranger(p) == /\ \/ holder[p] = 0 /\ holder' = [holder EXCEPT ![p] = -1]
                  \/ holder[p] = -1 /\ holder' = [holder EXCEPT ![p] = 0]
               /\ UNCHANGED <<hist, handles, roots, calls, pools>>
\* a call of listener
Begins(c, h, a) == /\ calls[c].at = "idle" /\ pools' = pools + 1
                   /\ calls' = [calls EXCEPT ![c] = [at |-> "binding", h |-> h, addrs |-> a, i |-> 1, comp |-> handles[h].comp, size |-> handles[h].size, root |-> handles[h].root, seen |-> <<>>, then |-> hist]]
                   /\ UNCHANGED <<hist, handles, roots, holder>>
Tries(c) == LET k == calls[c] IN
            /\ k.at = "binding" /\ k.i <= Len(k.addrs)
            /\ IF k.addrs[k.i] \in Free
               THEN holder' = [holder EXCEPT ![k.addrs[k.i]] = c] /\ calls' = [calls EXCEPT ![c].at = "serving"]
               ELSE calls' = [calls EXCEPT ![c].i = @ + 1, ![c].seen = Append(@, holder[k.addrs[k.i]])] /\ UNCHANGED holder
            /\ UNCHANGED <<hist, handles, roots, pools>>
Fails(c) == /\ calls[c].at = "binding" /\ calls[c].i > Len(calls[c].addrs) /\ pools' = pools - 1
            /\ calls' = [calls EXCEPT ![c].at = IF Unwraps THEN "panicked" ELSE "failed"] /\ UNCHANGED <<hist, handles, roots, holder>>
Next == \/ New \/ \E h \in DOMAIN handles : Clone(h) \/ Comp(h) \/ Size(h) \/ \E p \in Paths : Route(h, p)
        \/ \E p \in Ports : Stranger(p)
        \/ \E c \in Calls : Tries(c) \/ Fails(c) \/ \E h \in DOMAIN handles, a \in {s \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>} : \A i \in DOMAIN s : s[i] \in Ports} : Begins(c, h, a)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A c \in Calls : WF_vars(Tries(c) \/ Fails(c))
-----------------------------------------------------------------------------
Serving == {c \in Calls : calls[c].at = "serving"}
PortOf(c) == calls[c].addrs[calls[c].i]
OnePerPort == \A c, d \in Serving : c # d => PortOf(c) # PortOf(d)
\* every earlier address was not to be had when its turn came; the one served is held by its listener
InOrder == \A c \in Calls : /\ \A i \in DOMAIN calls[c].seen : calls[c].seen[i] # 0
                            /\ c \in Serving => Len(calls[c].seen) = calls[c].i - 1 /\ holder[PortOf(c)] = c
\* no other outcome than serving or an error, and nothing left behind by an error
Outcome == /\ \A c \in Calls : calls[c].at \in {"idle", "binding", "serving", "failed"}
           /\ pools = Cardinality({c \in Calls : calls[c].at \in {"binding", "serving"}})
           /\ \A p \in Ports : holder[p] > 0 => holder[p] \in Serving
\* routes found through the reference are those of the family, settings those of the moment listening began
Shared == \A h \in DOMAIN handles, p \in Paths : roots[handles[h].root][p] = Handler(hist, h, p)
Served == \A c \in Serving : /\ \A p \in Paths : roots[calls[c].root][p] = Handler(hist, calls[c].h, p)
                             /\ calls[c].comp = Setting(calls[c].then, calls[c].h, "comp", 0) /\ calls[c].size = Setting(calls[c].then, calls[c].h, "size", 4)
Own == \A h \in DOMAIN handles : handles[h].comp = Setting(hist, h, "comp", 0) /\ handles[h].size = Setting(hist, h, "size", 4)
Ends == \A c \in Calls : (calls[c].at = "binding") ~> (calls[c].at # "binding")
=============================================================================
