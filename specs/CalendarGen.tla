----------------------------- MODULE CalendarGen -----------------------------
(* Operations on a time: how it is made, what is added and taken away, near    *)
(* the ends of days, months, years, and the epoch.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLE hist
R(S) == RandomElement(S)
Units == {"weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"}
Item(h) == [op |-> R({"plus", "minus", "add", "sub", "format", "nums", "make", "parse"}), unit |-> R(Units), a |-> R({0 - 1001, 0 - 61, 0 - 1, 0, 1, 23, 24, 59, 60, 365, 366, 999, 1000, 86399, 86400, 1000000}),
            y |-> R({1, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2020, 2021, 2024, 2100, 2262, 9999}), m |-> R(0..13), d |-> R({0, 1, 2, 15, 28, 29, 30, 31, 32}),
            hh |-> R({0, 1, 11, 12, 13, 23, 24}), mi |-> R({0, 9, 59, 60}), s |-> R({0, 9, 59, 61}), fmt |-> R(0..30)]
Init == hist = <<>>
Next == Len(hist) < Len0 /\ \E o \in {Item(hist)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len0 => PrintT(ToJson(hist))
=============================================================================
