----------------------------- MODULE CalendarMC -----------------------------
(* A calendar that is told only how long months are, turned day by day, next   *)
(* to the closed formulas of DateTime: they agree on every day of a window.    *)
EXTENDS Integers, DateTime
CONSTANTS Starts     \* first years, plus 2000
VARIABLES d, y, m, dd, dow, doy, week, left
vars == <<d, y, m, dd, dow, doy, week, left>>
Init ==
  /\ y \in {k - 2000 : k \in Starts} /\ m = 1 /\ dd = 1
  /\ d = YearStart(y)
  /\ dow = DowOf(d) /\ doy = 1 /\ week = WeekOf(d, 1)
  /\ left = 366
Next ==
  /\ left > 0 /\ left' = left - 1
  /\ d' = d + 1
  /\ dow' = (dow + 1) % 7
  /\ IF dd < MonthLen(y, m) THEN dd' = dd + 1 /\ UNCHANGED <<m, y>>
     ELSE dd' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
  /\ doy' = IF y' = y THEN doy + 1 ELSE 1
  (* a week begins on Monday; it is the first of a year if it has January 4 in it *)
  /\ week' = IF dow' # 1 THEN week
             ELSE IF (m' = 12 /\ dd' >= 29) \/ (m' = 1 /\ dd' <= 4) THEN 1 ELSE week + 1
Spec == Init /\ [][Next]_vars

Agrees ==
  /\ Extract("year", d, 0) = y /\ Extract("month", d, 0) = m /\ Extract("day", d, 0) = dd
  /\ Extract("doy", d, 0) = doy /\ Extract("dow", d, 0) = dow /\ Extract("week", d, 0) = week
  /\ Day(y, m, dd) = d
Begins ==     \* a truncation is the last beginning of such a unit
  /\ Trunc("month", d, 5) = <<d - dd + 1, 0>>
  /\ Trunc("year", d, 5) = <<d - doy + 1, 0>>
  /\ \A f \in {"week", "week_sunday", "week_saturday", "month", "quarter", "year", "decade", "century", "millennium"} :
       LET t == Trunc(f, d, 7)[1] IN t <= d /\ Trunc(f, t, 0) = <<t, 0>>
Adds ==       \* differences undo additions, except where the day of the month had to give
  \A f \in {"month", "quarter", "year"} : \A n \in {1, 25} :
     LET t == Add(f, n, d, 3) IN
     /\ Diff(f, d, 3, t[1], t[2]) = (IF DomOf(t[1]) = dd THEN n ELSE n - 1)
     /\ Extract("month", t[1], 0) = ((m - 1 + n * Months(f)) % 12) + 1
     /\ DomOf(t[1]) = dd => Add(f, -n, t[1], t[2]) = <<d, 3>>
=============================================================================
