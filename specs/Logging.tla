------------------------------- MODULE Logging -------------------------------
(* Where the records of a program go: one file per configured module, with   *)
(* older parts of it kept under numbers, and the main file.                  *)
(* A target is a sequence of names; a module is responsible for its package  *)
(* and everything below that no module deeper down is responsible for.       *)
EXTENDS Integers, Sequences, FiniteSets
Levels == [Off |-> 0, Error |-> 1, Warn |-> 2, Info |-> 3, Debug |-> 4, Trace |-> 5]
Below(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
\* a configuration [main, mods]: main = [name, dir, level, size, count], a module has pkg and add as well;
\* no directory, size or count of its own: that of the main module
Path(c, m) == <<IF m.dir = "" THEN c.main.dir ELSE m.dir, m.name>>
SizeOf(c, m) == IF m.size = 0 THEN c.main.size ELSE m.size
CountOf(c, m) == IF m.count = 0 THEN c.main.count ELSE m.count
MainPath(c) == <<c.main.dir, c.main.name>>
\* two modules of one package, or two files of one name, cannot be told apart
Sound(c) == LET n == Len(c.mods) IN
            /\ \A i \in 1..n : c.mods[i].pkg # <<>> /\ c.mods[i].name \notin {c.main.name, "stdout"}
            /\ \A i, j \in 1..n : i # j => c.mods[i].pkg # c.mods[j].pkg /\ c.mods[i].name # c.mods[j].name
            /\ c.main.name # "stdout"
\* the modules above a target, the nearest first
Mine(c, t) == {i \in DOMAIN c.mods : Below(t, c.mods[i].pkg)}
Nearest(c, S) == CHOOSE i \in S : \A j \in S : Len(c.mods[j].pkg) <= Len(c.mods[i].pkg)
LevelFor(c, t) == LET S == Mine(c, t) IN IF S = {} THEN c.main.level ELSE c.mods[Nearest(c, S)].level
RECURSIVE Up(_, _)
\* the modules a record for these reaches, 0 being the main module
Up(c, S) == IF S = {} THEN {0}
            ELSE LET i == Nearest(c, S) IN {i} \cup (IF c.mods[i].add THEN Up(c, S \ {i}) ELSE {})
Reached(c, t, lev) == IF Levels[lev] > Levels[LevelFor(c, t)] THEN {} ELSE Up(c, Mine(c, t))
PathOf(c, i) == IF i = 0 THEN MainPath(c) ELSE Path(c, c.mods[i])
Limit(c, i) == IF i = 0 THEN c.main.size ELSE SizeOf(c, c.mods[i])
Keep(c, i) == IF i = 0 THEN c.main.count ELSE CountOf(c, c.mods[i])

-----------------------------------------------------------------------------
\* A file: what is in it now, and its older parts by number: [now |-> seq of [id, b], old |-> seq of such seqs]
Empty == [now |-> <<>>, old |-> <<>>]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).b + Sum(Tail(s))
\* older parts move up by one, the one numbered count is lost; numbers above count are not touched;
\* a number nothing was ever moved to holds nothing
Slot(o, k) == IF k <= Len(o) THEN o[k] ELSE <<>>
Rotated(f, count) == LET n == IF Len(f.old) + 1 > count THEN (IF Len(f.old) > count THEN Len(f.old) ELSE count) ELSE Len(f.old) + 1
                     IN [now |-> <<>>, old |-> [k \in 1..n |-> IF k > count THEN f.old[k] ELSE IF k = 1 THEN f.now ELSE Slot(f.old, k - 1)]]
Appended(f, r, limit, count) == LET g == [f EXCEPT !.now = Append(@, r)]
                                IN IF Sum(g.now) > limit THEN Rotated(g, count) ELSE g
FileAt(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE Empty
With(fs, p, f) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN f ELSE fs[q]]
\* a record with the length bs[p] of its line in each file p
RECURSIVE Into(_, _, _, _, _, _)
Into(c, fs, S, id, bs, unit) == IF S = {} THEN fs
    ELSE LET i == CHOOSE i \in S : TRUE  p == PathOf(c, i)
         IN Into(c, With(fs, p, Appended(FileAt(fs, p), [id |-> id, b |-> bs[p]], Limit(c, i) * unit, Keep(c, i))), S \ {i}, id, bs, unit)
\* all that is left of what went into a file, oldest first
RECURSIVE Older(_, _)
Older(o, k) == IF k = 0 THEN <<>> ELSE o[k] \o Older(o, k - 1)
All(f) == Older(f.old, Len(f.old)) \o f.now
=============================================================================
