------------------------------ MODULE LoggingGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, Roll      \* Roll: few modules and records that fill their files again and again
VARIABLE hist
R(S) == RandomElement(S)
Down == <<"app", "db", "pool", "k4", "k5", "k6", "k7", "k8", "k9">>
Long == "a_name_of_some_length_as_generated_code_has_it_with_every_word_of_its_path_in_it_0123456789_0123456789_0123456789_0123456789_0123456789"
Pkg(h) == IF R(1..5) = 1 THEN R({SubSeq(Down, 1, 4), SubSeq(Down, 1, 6), SubSeq(Down, 1, 8), <<"app", Long>>, <<Long>>, <<"app", "db2">>, <<"w">>}) ELSE R({<<"app">>, <<"app", "db">>, <<"app", "db", "pool">>, <<"app2">>, <<"web">>, <<"ap">>, <<"db">>})
Target(h) == IF R(1..5) = 1 THEN R({SubSeq(Down, 1, 5), SubSeq(Down, 1, 7), Down, <<"app", Long>>, <<"app", Long, "x">>, <<Long>>, <<Long \o "0">>}) ELSE R({<<"app">>, <<"app", "db">>, <<"app", "db", "pool">>, <<"app", "db", "x">>, <<"app2">>, <<"app2", "db">>, <<"ap">>, <<"web", "app">>, <<"web">>, <<"other">>, <<"db", "pool">>})
Level(h) == R({"Off", "Error", "Warn", "Info", "Debug", "Debug", "Trace"})
RecLevel(h) == R(<<{"Error", "Warn"}, {"Error", "Info", "Debug", "Trace"}>>[R(1..2)])
Mod(h, k) == [name |-> IF R(1..25) = 1 THEN R({"stdout", "main"}) ELSE "m" \o ToString(IF R(1..20) = 1 THEN 1 ELSE k), pkg |-> IF R(1..40) = 1 THEN <<>> ELSE Pkg(h), level |-> Level(h), add |-> R(1..3) > 1,
              dir |-> R({"", "", "d1", "d2/deep"}), size |-> R({0, 0, 1, 2}), count |-> R({0, 0, 1, 2, 3})]
\* one package has one module, mostly
RECURSIVE Mods(_, _, _)
Mods(h, n, acc) == IF n = 0 THEN acc
                   ELSE LET m == TLCEval(Mod(h, Len(acc) + 1)) IN
                        IF (\E i \in DOMAIN acc : acc[i].pkg = m.pkg) /\ R(1..20) # 1 THEN Mods(h, n - 1, acc) ELSE Mods(h, n - 1, Append(acc, m))
Conf(h) == [main |-> [name |-> R({"main", "main", "other"}), dir |-> R({"d1", "d3"}), level |-> Level(h), size |-> R({1, 1, 2}), count |-> R({1, 2, 3, 7})],
            mods |-> Mods(h, R({0, 2, 3, 4, 6, 8, 14, 24}), <<>>)]
RollPkg == <<"app", "db">>
RollMod(h, k) == [name |-> "m" \o ToString(k), pkg |-> IF k = 1 THEN <<"app">> ELSE RollPkg, level |-> R({"Info", "Trace"}), add |-> R(1..3) = 1,
                  dir |-> R({"", "d1", "d2"}), size |-> R({0, 1}), count |-> R({0, 1, 2, 3, 12})]
RollConf(h) == [main |-> [name |-> "main", dir |-> "d1", level |-> R({"Info", "Trace"}), size |-> R({1, 1, 2}), count |-> R({1, 2, 3, 5, 11})],
                mods |-> [k \in 1..R(1..2) |-> TLCEval(RollMod(h, k))]]
RollRec(h) == [t |-> R({<<"app">>, RollPkg, <<"app", "db", "pool">>, <<"web">>}), l |-> R({"Error", "Info"}), n |-> 1, big |-> R({600000, 1100000, 1100000}), roll |-> TRUE]
\* edge: a record like the last one of the fullest file, that brings it to its size or to some bytes off it
RollItem(h) == IF Len(h) = 0 \/ R(1..9) = 1 THEN [op |-> "config", conf |-> TLCEval(RollConf(h))]
               ELSE IF R(1..4) = 1 THEN [op |-> "edge", off |-> R({-9000, -20, -1, 0, 1, 2, 5000}), rec |-> TLCEval(RollRec(h))]
               ELSE [op |-> "rec", rec |-> TLCEval(RollRec(h))]
Rec(h) == [t |-> Target(h), l |-> RecLevel(h), n |-> IF R(1..12) = 1 THEN R({300, 1100, 4200, 9000, 66000}) ELSE R({0, 1, 20}), big |-> R({0, 200000, 900000, 400000, 700000, 1100000})]
Item(h) == LET k == R(1..12) IN
           CASE k \in {1, 2} -> [op |-> "config", conf |-> TLCEval(Conf(h))]
             [] k = 3 -> [op |-> R({"burst", "race"}), conf |-> TLCEval(Conf(h)), recs |-> [i \in 1..R(4..14) |-> TLCEval(Rec(h))]]
             [] k = 4 -> [op |-> R({"config", "test", "serve", "serve"}), conf |-> TLCEval(Conf(h))]
             [] OTHER -> [op |-> "rec", rec |-> TLCEval(Rec(h))]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {TLCEval(IF Roll THEN RollItem(hist) ELSE Item(hist))} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
