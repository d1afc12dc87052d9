------------------------------- MODULE Router -------------------------------
(* C01, C02: registration of routes and dispatch of requests.                *)
(*                                                                           *)
(* The abstract state is the sequence of registrations.  `Best` and `Fields` *)
(* say declaratively which route a request reaches and what its handler      *)
(* sees.  The trie of the implementation (children in order of creation,     *)
(* depth-first search with backtracking) is the second, operational half:    *)
(* the invariant TrieRefines states that both agree in every reachable       *)
(* state, for every method and path.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* A pattern is a sequence of pieces [p |-> is it a parameter, s |-> text or name].
\* A path is a sequence of strings (the segments between the slashes).
Shape(pat) == [i \in DOMAIN pat |-> IF pat[i].p THEN [p |-> TRUE, s |-> "?"] ELSE pat[i]]

Matches(pat, path) ==
    /\ Len(pat) = Len(path)
    /\ \A i \in DOMAIN pat : pat[i].p \/ pat[i].s = path[i]

Prefix(s, n) == SubSeq(s, 1, n)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Index of the first registration for method m whose shape starts with shp.
FirstReg(routes, m, shp) ==
    Min({r \in DOMAIN routes : /\ routes[r].m = m
                               /\ Len(routes[r].pat) >= Len(shp)
                               /\ Prefix(Shape(routes[r].pat), Len(shp)) = shp})

\* Of two matching routes: at the first piece where they differ, the alternative registered first wins.
Before(routes, i, j) ==
    LET si == Shape(routes[i].pat)
        sj == Shape(routes[j].pat)
        k  == Min({n \in DOMAIN si : si[n] # sj[n]})
    IN  FirstReg(routes, routes[i].m, Prefix(si, k)) < FirstReg(routes, routes[j].m, Prefix(sj, k))

Candidates(routes, m, path) == {i \in DOMAIN routes : routes[i].m = m /\ Matches(routes[i].pat, path)}

\* The route reached by a request, 0 if there is none.
Best(routes, m, path) ==
    LET M == Candidates(routes, m, path)
    IN  IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M \ {i} : Before(routes, i, j)

\* What the handler of a pattern sees as parameters.
Fields(pat, path) == {[n |-> pat[i].s, v |-> path[i]] : i \in {k \in DOMAIN pat : pat[k].p}}

\* A second route of one shape is refused: the registration fails and everything stays as it was.
Taken(routes, m, pat) == \E r \in DOMAIN routes : routes[r].m = m /\ Shape(routes[r].pat) = Shape(pat)

CanRegister(routes, m, pat) ==
    /\ ~Taken(routes, m, pat)
    /\ \A i, j \in DOMAIN pat : (pat[i].p /\ pat[j].p /\ pat[i].s = pat[j].s) => i = j

-----------------------------------------------------------------------------
\* The trie: one node per distinct (method, shape prefix), in creation order.
\* A node is [up |-> index of the parent (0 = root), m, pc |-> piece, r |-> route ending here or 0].
Child(trie, m, up, pc) == {n \in DOMAIN trie : trie[n].m = m /\ trie[n].up = up /\ trie[n].pc = pc}

RECURSIVE Insert(_, _, _, _, _, _)
Insert(trie, m, up, shp, i, r) ==
    IF i > Len(shp) THEN [trie EXCEPT ![up].r = r]
    ELSE LET c == Child(trie, m, up, shp[i])
         IN  IF c # {} THEN Insert(trie, m, CHOOSE n \in c : TRUE, shp, i + 1, r)
             ELSE Insert(Append(trie, [up |-> up, m |-> m, pc |-> shp[i], r |-> 0]), m, Len(trie) + 1, shp, i + 1, r)

RECURSIVE Walk(_, _, _, _, _), Try(_, _, _, _, _)
\* Search below node `up` for path[i..]; children in creation order; the first complete match wins.
Walk(trie, m, up, path, i) ==
    Try(trie, m, path, i, {n \in DOMAIN trie : /\ trie[n].m = m /\ trie[n].up = up
                                                /\ (trie[n].pc.p \/ trie[n].pc.s = path[i])})
Try(trie, m, path, i, S) ==
    IF S = {} THEN 0
    ELSE LET n == Min(S)
             x == IF i = Len(path) THEN trie[n].r ELSE Walk(trie, m, n, path, i + 1)
         IN  IF x # 0 THEN x ELSE Try(trie, m, path, i, S \ {n})

Fetch(trie, m, path) == Walk(trie, m, 0, path, 1)

\* What the trie refuses: walking down the shape without creating a node ends where a route is.
RECURSIVE Ends(_, _, _, _, _)
Ends(trie, m, up, shp, i) ==
    IF i > Len(shp) THEN trie[up].r # 0
    ELSE LET c == Child(trie, m, up, shp[i]) IN c # {} /\ Ends(trie, m, CHOOSE n \in c : TRUE, shp, i + 1)

-----------------------------------------------------------------------------
CONSTANTS Methods, Pieces, Segments, MaxLen, MaxRoutes
VARIABLES routes, trie

vars == <<routes, trie>>

Seqs(S) == UNION {[1..n -> S] : n \in 1..MaxLen}
Patterns == Seqs(Pieces)
Paths == Seqs(Segments)

Init == routes = <<>> /\ trie = <<>>

Register(m, pat) ==
    /\ Len(routes) < MaxRoutes
    /\ CanRegister(routes, m, pat)
    /\ routes' = Append(routes, [m |-> m, pat |-> pat])
    /\ trie' = Insert(trie, m, 0, Shape(pat), 1, Len(routes) + 1)

Refuse(m, pat) == Taken(routes, m, pat) /\ UNCHANGED vars
Next == \E m \in Methods, pat \in Patterns : Register(m, pat) \/ Refuse(m, pat)
Spec == Init /\ [][Next]_vars

TrieRefines == \A m \in Methods, p \in Paths : Fetch(trie, m, p) = Best(routes, m, p)
Refuses == \A m \in Methods, pat \in Patterns : Taken(routes, m, pat) = Ends(trie, m, 0, Shape(pat), 1)
\* Exactly the routes that match can be reached, and a match is never lost.
Sound == \A m \in Methods, p \in Paths :
            LET b == Best(routes, m, p)
            IN  IF b = 0 THEN Candidates(routes, m, p) = {} ELSE b \in Candidates(routes, m, p)
\* Every route can be reached by a request for its own pattern, unless an earlier alternative covers it.
Reachable == \A r \in DOMAIN routes :
                LET own == [i \in DOMAIN routes[r].pat |-> routes[r].pat[i].s]
                IN  Best(routes, routes[r].m, own) # 0
\* Registering a route changes the outcome of a request only towards that route.
Monotone == [][\A m \in Methods, p \in Paths :
                 Best(routes', m, p) # Best(routes, m, p) => Best(routes', m, p) = Len(routes')]_vars
=============================================================================
