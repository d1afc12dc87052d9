------------------------------- MODULE Values -------------------------------
(* C20: value maps (name -> list of values) and file maps (name -> file), as   *)
(* state machines over any number of maps; `copy` makes an independent clone.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* a map is a function from the names it holds
Empty == <<>>
Put(f, n, v) == (n :> v) @@ f
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Held(f, n) == n \in DOMAIN f
List(f, n) == IF Held(f, n) THEN f[n] ELSE <<>>
\* an operation o = [op, n, v] on map f: the new map and what it returns (a sequence of at most one value)
After(f, o) == CASE o.op = "set" -> Put(f, o.n, <<o.v>>)
                 [] o.op = "add" -> Put(f, o.n, Append(List(f, o.n), o.v))
                 [] o.op = "del" -> Without(f, o.n)
                 [] o.op = "insert" -> Put(f, o.n, <<o.v>>)
                 [] OTHER -> f
Returns(f, o) == CASE o.op \in {"del", "insert"} -> IF Held(f, o.n) THEN <<f[o.n][1]>> ELSE <<>>
                   [] OTHER -> <<>>
\* what the questions about name n say
Answer(f, n) == [n |-> n, has |-> Held(f, n), first |-> IF Held(f, n) THEN <<f[n][1]>> ELSE <<>>,
                 all |-> IF Held(f, n) THEN <<f[n]>> ELSE <<>>]
Size(f) == Cardinality(DOMAIN f)
Snapshot(f) == {[n |-> n, all |-> f[n]] : n \in DOMAIN f}
=============================================================================
