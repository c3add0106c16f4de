------------------------------ MODULE DateTime ------------------------------
(* The proleptic Gregorian calendar.  An instant is a day number d (0 is       *)
(* 1970-01-01) and a second of the day s; both are plain integers, so that     *)
(* instants far outside 32 bits of seconds can be written down.                *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* Days from 1970-01-01 to January 1 of year y.                                *)
YearStart(y) == LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400) - 719162
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthStart(y, m) == YearStart(y) + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
Day(y, m, dd) == MonthStart(y, m) + dd - 1

YearOf(d) == LET g == (d \div 146097) * 400 + 1970 + (((d % 146097) * 400) \div 146097) IN
  CHOOSE y \in (g - 2)..(g + 2) : YearStart(y) <= d /\ d < YearStart(y + 1)
MonthOf(d) == LET y == YearOf(d) IN CHOOSE m \in 1..12 : MonthStart(y, m) <= d /\ d < MonthStart(y, m) + MonthLen(y, m)
DomOf(d) == d - MonthStart(YearOf(d), MonthOf(d)) + 1
DoyOf(d) == d - YearStart(YearOf(d)) + 1
DowOf(d) == (d + 4) % 7                       \* Sunday = 0
(* First day on or before d of the week that begins on weekday w.              *)
WeekStart(d, w) == d - ((DowOf(d) - w) % 7)
(* Week 1 is the week that contains January 4.                                 *)
Week1(y, w) == WeekStart(Day(y, 1, 4), w)
WeekOf(d, w) ==
  LET y == YearOf(d)
      Z == CHOOSE z \in {y - 1, y, y + 1} : Week1(z, w) <= d /\ d < Week1(z + 1, w) IN
  (* the engine numbers the days before week 1 of their year as part of the previous year, and, unlike ISO, *)
  (* does so from January 1 on; both agree with ISO 8601 weeks.                                            *)
  ((d - Week1(Z, w)) \div 7) + 1

Extract(f, d, s) ==
  CASE f = "year" -> YearOf(d)
    [] f = "quarter" -> ((MonthOf(d) - 1) \div 3) + 1
    [] f = "month" -> MonthOf(d)
    [] f = "day" -> DomOf(d)
    [] f = "doy" -> DoyOf(d)
    [] f = "dow" -> DowOf(d)
    [] f = "isodow" -> IF DowOf(d) = 0 THEN 7 ELSE DowOf(d)
    [] f = "week" -> WeekOf(d, 1)
    [] f = "week_sunday" -> WeekOf(d, 0)
    [] f = "week_saturday" -> WeekOf(d, 6)
    [] f = "quarterday" -> (s \div 21600) + 1
    [] f = "hour" -> s \div 3600
    [] f = "minute" -> (s % 3600) \div 60
    [] f = "second" -> s % 60

(* The instant at which the unit begins, as <<d, s>>.                          *)
Trunc(f, d, s) ==
  LET y == YearOf(d) m == MonthOf(d) IN
  CASE f = "second" -> <<d, s>>
    [] f = "minute" -> <<d, s - (s % 60)>>
    [] f = "hour" -> <<d, s - (s % 3600)>>
    [] f = "quarterday" -> <<d, s - (s % 21600)>>
    [] f = "day" -> <<d, 0>>
    [] f = "week" -> <<WeekStart(d, 1), 0>>
    [] f = "week_sunday" -> <<WeekStart(d, 0), 0>>
    [] f = "week_saturday" -> <<WeekStart(d, 6), 0>>
    [] f = "month" -> <<MonthStart(y, m), 0>>
    [] f = "quarter" -> <<MonthStart(y, 3 * ((m - 1) \div 3) + 1), 0>>
    [] f = "year" -> <<YearStart(y), 0>>
    [] f = "decade" -> <<YearStart(y - (y % 10)), 0>>
    [] f = "century" -> <<YearStart(y - ((y - 1) % 100)), 0>>
    [] f = "millennium" -> <<YearStart(y - ((y - 1) % 1000)), 0>>

Months(f) == CASE f = "month" -> 1 [] f = "quarter" -> 3 [] f = "year" -> 12 [] f = "decade" -> 120
               [] f = "century" -> 1200 [] f = "millennium" -> 12000
Secs(f) == CASE f = "second" -> 1 [] f = "minute" -> 60 [] f = "hour" -> 3600 [] f = "quarterday" -> 21600
Days(f) == CASE f = "day" -> 1 [] f \in {"week", "week_sunday", "week_saturday"} -> 7
MonthUnits == {"month", "quarter", "year", "decade", "century", "millennium"}
DayUnits == {"day", "week", "week_sunday", "week_saturday"}

(* Adding months keeps the day of the month, or takes the last one there is.   *)
Add(f, n, d, s) ==
  IF f \in MonthUnits THEN
     LET q == (YearOf(d) * 12 + MonthOf(d) - 1) + n * Months(f)
         y == q \div 12
         m == (q % 12) + 1
         l == MonthLen(y, m)
         dd == DomOf(d) IN
     <<Day(y, m, IF dd > l THEN l ELSE dd), s>>
  ELSE IF f \in DayUnits THEN <<d + n * Days(f), s>>
  ELSE LET u == Secs(f) t == s + (n % (86400 \div u)) * u IN
       <<d + (n \div (86400 \div u)) + (t \div 86400), t % 86400>>

Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* Whole units that fit between two instants, towards zero.                    *)
RECURSIVE Diff(_, _, _, _, _)
Diff(f, d1, s1, d2, s2) ==
  IF d2 < d1 \/ (d2 = d1 /\ s2 < s1) THEN -Diff(f, d2, s2, d1, s1)
  ELSE IF f \in MonthUnits THEN
     LET m == (YearOf(d2) * 12 + MonthOf(d2)) - (YearOf(d1) * 12 + MonthOf(d1))
         a == DomOf(d1) b == DomOf(d2)
         w == IF b < a \/ (b = a /\ s2 < s1) THEN m - 1 ELSE m IN
     w \div Months(f)
  ELSE IF f \in DayUnits THEN (d2 - d1 - (IF s2 < s1 THEN 1 ELSE 0)) \div Days(f)
  ELSE LET u == Secs(f) IN (d2 - d1) * (86400 \div u) + ((s2 - s1) \div u)
=============================================================================
