------------------------------- MODULE Calendar -------------------------------
(* C22: times. A time is [d |-> days since 1970-01-01, s |-> second of the day, *)
(* n |-> nanosecond], the proleptic Gregorian calendar without leap seconds.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Lengths(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + Lengths(y)[m - 1]     \* days of the year before month m
YearStart(y) == LET z == y - 1 IN 365 * z + z \div 4 - z \div 100 + z \div 400 - 719162
Real(y, m, d) == m \in 1..12 /\ d \in 1..Lengths(y)[m]
DayNumber(y, m, d) == YearStart(y) + Before(y, m) + d - 1
YearOf(dn) == LET g == 1970 + (dn * 4) \div 1461 IN CHOOSE y \in (g - 9)..(g + 9) : YearStart(y) <= dn /\ dn < YearStart(y + 1)
Civil(dn) == LET y == YearOf(dn)
                 o == dn - YearStart(y)
                 m == CHOOSE k \in 1..12 : Before(y, k) <= o /\ o < Before(y, k) + Lengths(y)[k]
             IN  [y |-> y, m |-> m, d |-> o - Before(y, m) + 1, o |-> o + 1]
Weekday(dn) == ((dn + 3) % 7) + 1              \* 1 is Monday
\* a week belongs to the year its Thursday lies in
Iso(dn) == LET thu == dn - Weekday(dn) + 4 IN [g |-> YearOf(thu), v |-> (thu - YearStart(YearOf(thu))) \div 7 + 1]
IsoStart(g) == LET j == YearStart(g) + 3 IN j - Weekday(j) + 1                \* the Monday of week 1
IsoWeeks(g) == (IsoStart(g + 1) - IsoStart(g)) \div 7
IsoDay(g, v, u) == IsoStart(g) + 7 * (v - 1) + u - 1

-----------------------------------------------------------------------------
Giga == 1000000000
\* brings seconds and nanoseconds into their ranges, carrying
Norm(d, s, n) == LET s1 == s + n \div Giga IN [d |-> d + s1 \div 86400, s |-> s1 % 86400, n |-> n % Giga]
Plus(a, b) == Norm(a.d + b.d, a.s + b.s, a.n + b.n)
Minus(a, b) == Norm(a.d - b.d, a.s - b.s, a.n - b.n)
Zero == [d |-> 0, s |-> 0, n |-> 0]
Leq(a, b) == a.d < b.d \/ (a.d = b.d /\ (a.s < b.s \/ (a.s = b.s /\ a.n <= b.n)))
Less(a, b) == Leq(a, b) /\ a # b

\* Amounts of a unit come as digits: whole days first, then what is left of the day (units of a day, or seconds and parts)
Amount(unit, x) ==
    CASE unit = "weeks" -> [d |-> 7 * x[1], s |-> 0, n |-> 0]
      [] unit = "days" -> [d |-> x[1], s |-> 0, n |-> 0]
      [] unit = "hours" -> Norm(x[1], 3600 * x[2], 0)
      [] unit = "minutes" -> Norm(x[1], 60 * x[2], 0)
      [] unit = "seconds" -> Norm(x[1], x[2], 0)
      [] unit = "milliseconds" -> Norm(x[1], x[2] \div 1000, (x[2] % 1000) * 1000000)
      [] unit = "microseconds" -> Norm(x[1], x[2], x[3] * 1000)
      [] unit = "nanoseconds" -> Norm(x[1], x[2], x[3])
One(unit) ==
    CASE unit = "weeks" -> Amount(unit, <<1>>) [] unit = "days" -> Amount(unit, <<1>>)
      [] unit \in {"hours", "minutes", "seconds", "milliseconds"} -> Amount(unit, <<0, 1>>)
      [] OTHER -> Amount(unit, <<0, 0, 1>>)
\* x is the number of whole units in t, counted towards zero
Counts(t, unit, x) == LET a == Amount(unit, x) IN
                      IF Leq(Zero, t) THEN Leq(Zero, a) /\ Leq(a, t) /\ Less(t, Plus(a, One(unit)))
                      ELSE Leq(a, Zero) /\ Leq(t, a) /\ Less(Minus(a, One(unit)), t)
\* the times whose nanoseconds fit 64 bits
MaxNanos == [d |-> 106751, s |-> 85636, n |-> 854775807]
MinNanos == Minus(Zero, [d |-> 106751, s |-> 85636, n |-> 854775808])

-----------------------------------------------------------------------------
Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Mon == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Days == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
Day == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
N(x) == ToString(x)
Two(x) == (IF x < 10 THEN "0" ELSE "") \o N(x)
Blank(x) == (IF x < 10 THEN " " ELSE "") \o N(x)
Three(x) == (IF x < 10 THEN "00" ELSE IF x < 100 THEN "0" ELSE "") \o N(x)
Four(x) == (IF x < 10 THEN "000" ELSE IF x < 100 THEN "00" ELSE IF x < 1000 THEN "0" ELSE "") \o N(x)
Twelve(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
\* everything a format may ask about; o: day of the year, w: weekday, g, v: ISO year and week
Fields(t) == LET c == Civil(t.d)  i == Iso(t.d) IN
             [y |-> c.y, m |-> c.m, d |-> c.d, o |-> c.o, w |-> Weekday(t.d), g |-> i.g, v |-> i.v,
              h |-> t.s \div 3600, i |-> (t.s \div 60) % 60, s |-> t.s % 60, f |-> ""]
Spell(f, k) ==
    CASE k = "%Y" -> Four(f.y) [] k = "%C" -> Two(f.y \div 100) [] k = "%y" -> Two(f.y % 100)
      [] k = "%m" -> Two(f.m) [] k = "%-m" -> N(f.m) [] k \in {"%b", "%h"} -> Mon[f.m] [] k = "%B" -> Months[f.m]
      [] k = "%d" -> Two(f.d) [] k = "%-d" -> N(f.d) [] k \in {"%e", "%_d"} -> Blank(f.d) [] k = "%j" -> Three(f.o)
      [] k = "%a" -> Day[f.w] [] k = "%A" -> Days[f.w] [] k = "%u" -> N(f.w) [] k = "%w" -> N(f.w % 7)
      [] k = "%U" -> Two((f.o + 6 - (f.w % 7)) \div 7) [] k = "%W" -> Two((f.o + 6 - (f.w - 1)) \div 7)
      [] k = "%G" -> Four(f.g) [] k = "%g" -> Two(f.g % 100) [] k = "%V" -> Two(f.v)
      [] k = "%D" -> Two(f.m) \o "/" \o Two(f.d) \o "/" \o Two(f.y % 100)
      [] k = "%F" -> Four(f.y) \o "-" \o Two(f.m) \o "-" \o Two(f.d)
      [] k = "%v" -> Blank(f.d) \o "-" \o Mon[f.m] \o "-" \o Four(f.y)
      [] k = "%H" -> Two(f.h) [] k = "%-H" -> N(f.h) [] k = "%k" -> Blank(f.h)
      [] k = "%I" -> Two(Twelve(f.h)) [] k = "%l" -> Blank(Twelve(f.h)) [] k = "%-I" -> N(Twelve(f.h))
      [] k = "%p" -> IF f.h < 12 THEN "AM" ELSE "PM" [] k = "%P" -> IF f.h < 12 THEN "am" ELSE "pm"
      [] k = "%M" -> Two(f.i) [] k = "%-M" -> N(f.i) [] k = "%S" -> Two(f.s) [] k = "%-S" -> N(f.s)
      [] k = "%R" -> Two(f.h) \o ":" \o Two(f.i)
      [] k \in {"%T", "%X"} -> Two(f.h) \o ":" \o Two(f.i) \o ":" \o Two(f.s)
      [] k = "%r" -> Two(Twelve(f.h)) \o ":" \o Two(f.i) \o ":" \o Two(f.s) \o " " \o (IF f.h < 12 THEN "AM" ELSE "PM")
      [] k = "%c" -> Day[f.w] \o " " \o Mon[f.m] \o " " \o Blank(f.d) \o " " \o Two(f.h) \o ":" \o Two(f.i) \o ":" \o Two(f.s) \o " " \o Four(f.y)
      [] k = "%.f" -> f.f
      [] k = "%%" -> "%"
      [] OTHER -> k
RECURSIVE Write(_, _)
Write(f, fmt) == IF fmt = <<>> THEN "" ELSE Spell(f, Head(fmt)) \o Write(f, Tail(fmt))
\* formatting shows whole seconds: the second the time lies in
Format(t, fmt) == Write(Fields(t), fmt)

\* What fields written in a format must be read as: a time, or an error. Uses says which fields the format shows.
Dates == [civil |-> {"%m", "%-m", "%b", "%B", "%D", "%F", "%v", "%c"}, ordinal |-> {"%j"}, iso |-> {"%V"}]
Shows(fmt, S) == \E i \in DOMAIN fmt : fmt[i] \in S
Read(f, fmt) ==
    LET iso == Shows(fmt, Dates.iso)
        ord == ~iso /\ Shows(fmt, Dates.ordinal)
        hms == f.h \in 0..23 /\ f.i \in 0..59 /\ f.s \in 0..59
        ok == /\ hms
              /\ IF iso THEN f.v \in 1..IsoWeeks(f.g) /\ f.w \in 1..7
                 ELSE IF ord THEN f.o \in 1..(IF Leap(f.y) THEN 366 ELSE 365)
                 ELSE Real(f.y, f.m, f.d)
        dn == IF iso THEN IsoDay(f.g, f.v, f.w) ELSE IF ord THEN YearStart(f.y) + f.o - 1 ELSE DayNumber(f.y, f.m, f.d)
        wd == ~iso /\ Shows(fmt, {"%a", "%A", "%u", "%w", "%c"})
    IN  IF ok /\ (wd => f.w = Weekday(dn)) THEN [ok |-> TRUE, d |-> dn, s |-> 3600 * f.h + 60 * f.i + f.s, n |-> IF Shows(fmt, {"%.f"}) THEN f.n ELSE 0]
        ELSE [ok |-> FALSE]
=============================================================================
