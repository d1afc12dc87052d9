------------------------------ MODULE MCLogging ------------------------------
EXTENDS Logging, TLC
CONSTANTS MaxRecords, Counts, Sizes
VARIABLES conf, files, n, sent, lost
vars == <<conf, files, n, sent, lost>>
Targets == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"x">>}
Main(s, k) == [name |-> "main", dir |-> "d", level |-> "Info", size |-> s, count |-> k]
Mod(nm, pkg, lev, add, dir, k) == [name |-> nm, pkg |-> pkg, level |-> lev, add |-> add, dir |-> dir, size |-> 0, count |-> k]
Confs == {[main |-> Main(s, k), mods |-> ms] : s \in Sizes, k \in Counts, ms \in
            {<<>>} \cup {<<Mod("m", <<"a">>, l, add, "", 0), Mod("n", <<"a", "b">>, "Debug", add2, "e", k2)>> :
                            l \in {"Off", "Warn", "Debug"}, add \in BOOLEAN, add2 \in BOOLEAN, k2 \in Counts}}
Init == conf \in Confs /\ files = <<>> /\ n = 0 /\ sent = <<>> /\ lost = {}
Record == \E t \in Targets, lev \in {"Warn", "Debug"}, b \in {1, 2} :
          LET S == Reached(conf, t, lev) IN
          /\ n < MaxRecords /\ n' = n + 1
          /\ files' = Into(conf, files, S, n + 1, [p \in {PathOf(conf, i) : i \in S} |-> b], 1)
          /\ sent' = [p \in DOMAIN sent \cup {PathOf(conf, i) : i \in S} |->
                        (IF p \in DOMAIN sent THEN sent[p] ELSE <<>>) \o (IF \E i \in S : PathOf(conf, i) = p THEN <<n + 1>> ELSE <<>>)]
          /\ UNCHANGED <<conf, lost>>
Change == \E c \in Confs : conf' = c /\ n < MaxRecords /\ n' = n + 1 /\ UNCHANGED <<files, sent, lost>>
Next == Record \/ Change
Spec == Init /\ [][Next]_vars
Ids(s) == [i \in DOMAIN s |-> s[i].id]
\* what is kept of a file are its latest records, in order, each once, as long as the number of parts kept does not change
Suffix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
RangeOf(s) == {s[i] : i \in DOMAIN s}
Kept == \A p \in DOMAIN files : LET a == Ids(All(files[p])) IN
        /\ RangeOf(a) \subseteq RangeOf(sent[p])
        /\ \A i, j \in DOMAIN a : i < j => a[i] < a[j] \/ Cardinality(Counts) > 1
        /\ Cardinality(Counts) = 1 => Suffix(a, sent[p])
\* no part is larger than the limit by more than its last record, and the current one never is
Small == \A p \in DOMAIN files : LET f == files[p]  m == CHOOSE s \in Sizes : \A q \in Sizes : q <= s IN
         Sum(f.now) <= m /\ \A k \in DOMAIN f.old : f.old[k] # <<>> => Sum(SubSeq(f.old[k], 1, Len(f.old[k]) - 1)) <= m
Few == \A p \in DOMAIN files : \A m \in Counts : (\A q \in Counts : q <= m) => Len(files[p].old) <= m
\* a record only reaches files of modules above its target, and the nearest one if any at all
Chain == \A c \in {conf} : \A t \in Targets : \A lev \in {"Warn", "Debug"} : LET S == Reached(c, t, lev) IN
         /\ \A i \in S \ {0} : Below(t, c.mods[i].pkg)
         /\ S # {} /\ Mine(c, t) # {} => Nearest(c, Mine(c, t)) \in S
         /\ Levels[lev] > Levels[LevelFor(c, t)] <=> S = {}
         /\ 0 \in S <=> (S # {} /\ \A i \in Mine(c, t) : c.mods[i].add)
ASSUME \A c \in Confs : Sound(c)
=============================================================================
