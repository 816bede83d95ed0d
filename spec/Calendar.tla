------------------------------ MODULE Calendar ------------------------------
(* The civil calendar (proleptic Gregorian, UTC) of a timestamp given as    *)
(* days since 1970-01-01 and seconds of the day.                            *)
EXTENDS Integers, Sequences, TLC
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y) == IF Leap(y) THEN 366 ELSE 365
\* days from 1970-01-01 to y-01-01
DaysTo(y) == 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
\* the year that contains day d (d >= 0): a guess that is off by at most one, corrected
YearOf(d) == LET g == 1970 + (d * 4) \div 1461 IN
             IF DaysTo(g) > d THEN g - 1 ELSE IF DaysTo(g + 1) <= d THEN g + 1 ELSE g
MonthLen(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE MonthDay(_, _, _)
MonthDay(m, r, ml) == IF r < ml[m] THEN <<m, r + 1>> ELSE MonthDay(m + 1, r - ml[m], ml)
Names == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Week  == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>
P2(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
S3(x) == IF x < 10 THEN "  " \o ToString(x) ELSE " " \o ToString(x)
P6(x) == LET z == CASE x < 10 -> "00000" [] x < 100 -> "0000" [] x < 1000 -> "000" [] x < 10000 -> "00" [] x < 100000 -> "0" [] OTHER -> ""
         IN z \o ToString(x)
Clock3(s) == P2(s \div 3600) \o ":" \o P2((s \div 60) % 60) \o ":" \o P2(s % 60)
Long(d, s) == LET y == YearOf(d) md == MonthDay(1, d - DaysTo(y), MonthLen(y)) IN
   Week[(d % 7) + 1] \o " " \o Names[md[1]] \o S3(md[2]) \o " " \o Clock3(s) \o " " \o ToString(y) \o " UTC"
\* local time of day, z minutes east of UTC
Short(d, s, us, z) == Clock3((s + 60 * z + 86400) % 86400) \o "." \o P6(us)
\* the calendar is a bijection: walking one day forward is one step in the civil date
VARIABLE day
Init == day = 0
Next == day < 213503 /\ day' = day + 1
Date(d) == LET y == YearOf(d) IN <<y>> \o MonthDay(1, d - DaysTo(y), MonthLen(y))
Walks == [][LET a == Date(day) b == Date(day') IN
            \/ b = <<a[1], a[2], a[3] + 1>>
            \/ b = <<a[1], a[2] + 1, 1>> /\ a[3] = MonthLen(a[1])[a[2]]
            \/ b = <<a[1] + 1, 1, 1>> /\ a[2] = 12 /\ a[3] = 31]_day
Spec == Init /\ [][Next]_day
=============================================================================
