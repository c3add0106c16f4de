------------------------------ MODULE Instants ------------------------------
(* Instants with fractions, as <<day, second of the day, nanosecond>>, their   *)
(* arithmetic in any precision, and their textual forms.                       *)
EXTENDS Integers, Sequences, Strings, DateTime

P10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000
            [] n = 6 -> 1000000 [] n = 7 -> 10000000 [] n = 8 -> 100000000 [] n = 9 -> 1000000000
SubDim(f) == CASE f = "milli" -> 3 [] f = "micro" -> 6 [] f = "nano" -> 9
SubUnits == {"milli", "micro", "nano"}

Norm(d, s, n) ==       \* carries, for n and s within a few units of their ranges
  LET s2 == s + (n \div 1000000000) IN <<d + (s2 \div 86400), s2 % 86400, n % 1000000000>>

(* v plus n units of f, in precision p: a unit finer than the precision counts *)
(* only as far as it amounts to whole units of the precision (rounding down).  *)
AddIn(f, n, v, p) ==
  IF f \in SubUnits THEN
     LET fd == SubDim(f)
         k == IF fd <= p THEN n ELSE n \div P10(fd - p)    \* number of units of dimension min(fd, p)
         dim == IF fd <= p THEN fd ELSE p
         sec == k \div P10(dim)
         frac == (k % P10(dim)) * P10(9 - dim)
         day == sec \div 86400 IN
     Norm(v[1] + day, v[2] + (sec % 86400), v[3] + frac)
  ELSE LET g == IF f \in {"weekday", "doy"} THEN "day" ELSE f
           r == Add(g, n, v[1], v[2]) IN <<r[1], r[2], v[3]>>

InstLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
(* A length of time as <<sign, days, seconds, nanoseconds>>.                   *)
Length(a, b) ==
  IF a = b THEN <<0, 0, 0, 0>>
  ELSE IF InstLt(a, b) THEN LET x == Norm(b[1] - a[1], b[2] - a[2], b[3] - a[3]) IN <<1, x[1], x[2], x[3]>>
  ELSE LET x == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3]) IN <<-1, x[1], x[2], x[3]>>
(* ... in whole units of dimension p, towards zero.                            *)
Whole(l, p) ==
  LET n == l[4] - (l[4] % P10(9 - p)) IN
  IF l[2] = 0 /\ l[3] = 0 /\ n = 0 THEN <<0, 0, 0, 0>> ELSE <<l[1], l[2], l[3], n>>

(* The end is moved to the second of the start's fraction, towards the start.  *)
Aligned(a, b) ==
  IF InstLt(a, b) /\ <<a[1], a[2]>> # <<b[1], b[2]>> /\ b[3] < a[3] THEN Norm(b[1], b[2] - 1, 0)
  ELSE IF InstLt(b, a) /\ <<a[1], a[2]>> # <<b[1], b[2]>> /\ b[3] > a[3] THEN Norm(b[1], b[2] + 1, 0)
  ELSE b
DiffWhole(f, a, b) == LET c == Aligned(a, b) IN Diff(f, a[1], a[2], c[1], c[2])
(* Month units, the fraction being the last of the fields to compare.          *)
RECURSIVE DiffFields(_, _, _)
DiffFields(f, a, b) ==
  IF InstLt(b, a) THEN -DiffFields(f, b, a)
  ELSE LET m == (YearOf(b[1]) * 12 + MonthOf(b[1])) - (YearOf(a[1]) * 12 + MonthOf(a[1]))
           x == <<DomOf(a[1]), a[2], a[3]>>
           y == <<DomOf(b[1]), b[2], b[3]>>
           w == IF InstLt(y, x) THEN m - 1 ELSE m IN w \div Months(f)

(* Text.                                                                       *)
Pad(n, w) == LET d == Digits(n) IN [i \in 1..(IF w > Len(d) THEN w - Len(d) ELSE 0) |-> 48] \o d
DASH == 45
COLON == 58
SLASH == 47
DOT == 46
SP == 32
DateText(d) == Pad(YearOf(d), 4) \o <<DASH>> \o Pad(MonthOf(d), 2) \o <<DASH>> \o Pad(DomOf(d), 2)
TimeText(s) == Pad(s \div 3600, 2) \o <<COLON>> \o Pad((s % 3600) \div 60, 2) \o <<COLON>> \o Pad(s % 60, 2)
FracText(n, p) == IF p = 0 THEN <<>> ELSE <<DOT>> \o Pad(n \div P10(9 - p), p)
StampText(v, p) == DateText(v[1]) \o <<SP>> \o TimeText(v[2]) \o FracText(v[3], p)

MonthNames == << <<106,97,110,117,97,114,121>>, <<102,101,98,114,117,97,114,121>>, <<109,97,114,99,104>>, <<97,112,114,105,108>>,
  <<109,97,121>>, <<106,117,110,101>>, <<106,117,108,121>>, <<97,117,103,117,115,116>>, <<115,101,112,116,101,109,98,101,114>>,
  <<111,99,116,111,98,101,114>>, <<110,111,118,101,109,98,101,114>>, <<100,101,99,101,109,98,101,114>> >>
Cased(s, how) == [i \in 1..Len(s) |-> IF how = "up" \/ (how = "cap" /\ i = 1) THEN Upper(s[i]) ELSE s[i]]
MonthText(m, full, how) == Cased(IF full THEN MonthNames[m] ELSE SubSeq(MonthNames[m], 1, 3), how)

(* What is written: a date r.df of a format, a time r.tf, a zone.              *)
N2(n, r) == IF r.pad THEN Pad(n, 2) ELSE Digits(n)
DatePart(r) ==
  CASE r.df = 1 -> Digits(r.y) \o <<DASH>> \o N2(r.m, r) \o <<DASH>> \o N2(r.d, r)
    [] r.df = 2 -> N2(r.m, r) \o <<SLASH>> \o N2(r.d, r) \o <<SLASH>> \o N2(r.y % 100, r)
    [] r.df = 3 -> N2(r.m, r) \o <<SLASH>> \o N2(r.d, r) \o <<SLASH>> \o Digits(r.y)
    [] r.df = 4 -> Digits(r.y) \o <<SLASH>> \o N2(r.m, r) \o <<SLASH>> \o N2(r.d, r)
    [] r.df = 5 -> N2(r.d, r) \o <<DASH>> \o MonthText(r.m, r.full, r.how) \o <<DASH>> \o N2(r.y % 100, r)
    [] r.df = 6 -> N2(r.d, r) \o <<SLASH>> \o MonthText(r.m, r.full, r.how) \o <<SLASH>> \o Digits(r.y)
H12(s) == LET h == (s \div 3600) % 12 IN IF h = 0 THEN 12 ELSE h
AmPm(s, r) == LET pm == s >= 43200 IN
  IF r.dots THEN (IF pm THEN Cased(<<112,46,109,46>>, r.how) ELSE Cased(<<97,46,109,46>>, r.how))
  ELSE (IF pm THEN Cased(<<112,109>>, r.how) ELSE Cased(<<97,109>>, r.how))
Min2(s) == Pad((s % 3600) \div 60, 2)
Sec2(s) == Pad(s % 60, 2)
Frac(r) == IF r.fl = 0 THEN <<>> ELSE <<DOT>> \o Pad(r.n \div P10(9 - r.fl), r.fl)
TimePart(r) == LET s == r.s IN
  CASE r.tf = 1 -> N2(H12(s), r) \o <<COLON>> \o Min2(s) \o <<COLON>> \o Sec2(s) \o Frac(r) \o <<SP>> \o AmPm(s, r)
    [] r.tf = 2 -> N2(s \div 3600, r) \o <<COLON>> \o Min2(s) \o <<COLON>> \o Sec2(s) \o Frac(r)
    [] r.tf = 3 -> N2(H12(s), r) \o <<COLON>> \o Min2(s) \o <<SP>> \o AmPm(s, r)
    [] r.tf = 4 -> N2(s \div 3600, r) \o <<COLON>> \o Min2(s)
    [] r.tf = 5 -> Pad(s \div 3600, 2) \o Min2(s) \o Sec2(s) \o Frac(r)
    [] r.tf = 6 -> N2(H12(s), r) \o <<SP, DOT, SP>> \o Min2(s) \o <<SP, DOT, SP>> \o Sec2(s) \o Frac(r) \o <<SP>> \o AmPm(s, r)
    [] r.tf = 7 -> N2(H12(s), r) \o <<SP>> \o AmPm(s, r)
SecsOf(r) == CASE r.tf = 0 -> 0 [] r.tf \in {1, 2, 5, 6} -> r.s [] r.tf \in {3, 4} -> r.s - (r.s % 60) [] r.tf = 7 -> r.s - (r.s % 3600)
ZonePart(r) == IF r.zf = 0 THEN <<>>
  ELSE (IF r.z < 0 THEN <<DASH>> ELSE <<43>>) \o Pad(Abs(r.z) \div 60, 2) \o (IF r.zf = 2 THEN <<COLON>> ELSE <<>>) \o Pad(Abs(r.z) % 60, 2)
Full2(y) == LET k == y % 100 IN IF k < 69 THEN 2000 + k ELSE 1900 + k
YearRead(r) == IF r.df \in {2, 5} THEN Full2(r.y) ELSE r.y

(* The text of a written thing and the instant it denotes, in precision p.     *)
WrittenText(t, r) ==
  CASE t = "date" -> DatePart(r) \o ZonePart(r)
    [] t = "time" -> (IF r.t THEN <<84>> ELSE <<>>) \o TimePart(r) \o ZonePart(r)
    [] t = "ts" -> (IF r.t THEN <<84>> ELSE <<>>) \o DatePart(r) \o <<r.sep>> \o TimePart(r) \o ZonePart(r)
WrittenInstant(t, r, p) ==
  LET d == IF t = "time" THEN 0 ELSE Day(YearRead(r), r.m, r.d)
      s == IF t = "date" THEN 0 ELSE SecsOf(r)
      n == IF t = "date" \/ r.fl = 0 \/ r.tf \in {0, 3, 4, 7} THEN 0 ELSE r.n - (r.n % P10(9 - p)) IN
  Norm(d, s - (IF r.zf = 0 THEN 0 ELSE 60 * r.z), n)
=============================================================================
