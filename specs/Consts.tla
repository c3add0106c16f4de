-------------------------------- MODULE Consts --------------------------------
(* Numbers of any size: a number is [neg |-> 0/1, d |-> decimal digits,        *)
(* f |-> how many of them stand after the point].                              *)
EXTENDS Integers, Sequences
Zeros(k) == [i \in 1..k |-> 0]
RECURSIVE Strip(_)
Strip(d) == IF d = <<>> THEN d ELSE IF d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>>
          ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
          ELSE Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
(* d / 10^k to the nearest whole number, halves away from zero.                *)
RoundDiv(d, k) ==
  LET e == IF Len(d) < k THEN Zeros(k - Len(d)) \o d ELSE d
      q == SubSeq(e, 1, Len(e) - k) IN
  IF k = 0 THEN Strip(d) ELSE IF e[Len(e) - k + 1] >= 5 THEN Strip(Inc(q)) ELSE Strip(q)
(* n * 10^sc as a whole number's digits.                                       *)
Scaled(n, sc) == IF sc >= n.f THEN Strip(n.d \o Zeros(sc - n.f)) ELSE RoundDiv(n.d, n.f - sc)
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
DigLe(a, b) == LET x == Strip(a) y == Strip(b) IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLe(x, y)
Whole(neg, d) == [neg |-> IF Strip(d) = <<>> THEN 0 ELSE neg, d |-> Strip(d), f |-> 0]
(* The same number.                                                            *)
NumEq(a, b) ==
  LET m == IF a.f > b.f THEN a.f ELSE b.f
      x == Strip(a.d \o Zeros(m - a.f)) y == Strip(b.d \o Zeros(m - b.f)) IN
  x = y /\ (x = <<>> \/ a.neg = b.neg)

MaxD(s) == CASE s = 1 -> <<1, 2, 7>> [] s = 2 -> <<3, 2, 7, 6, 7>> [] s = 4 -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
             [] s = 8 -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
MinD(s) == [MaxD(s) EXCEPT ![Len(MaxD(s))] = @ + 1]
Fits(n, s) == IF n.neg = 1 THEN DigLe(n.d, MinD(s)) ELSE DigLe(n.d, MaxD(s))
IsMin(n, s) == n.neg = 1 /\ Strip(n.d) = MinD(s)

(* ---- texts -------------------------------------------------------------- *)
Dig(d) == [i \in 1..Len(d) |-> d[i] + 48]
(* A number as written: sign, whole digits, point and fraction digits, power.  *)
Written(w) ==
  w.sign \o Dig(w.ip) \o (IF w.dot = 1 THEN <<46>> \o Dig(w.fp) ELSE <<>>)
  \o (IF w.exp = <<>> THEN <<>> ELSE <<w.exp[1]>> \o w.exp[2] \o Dig(w.exp[3]))
RECURSIVE DVal(_)
DVal(d) == IF d = <<>> THEN 0 ELSE 10 * DVal(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
Power(w) == IF w.exp = <<>> THEN 0 ELSE (IF w.exp[2] = <<45>> THEN -1 ELSE 1) * DVal(w.exp[3])
Value(w) ==
  LET f == Len(w.fp) - Power(w) d == w.ip \o w.fp IN
  [neg |-> IF w.sign = <<45>> THEN 1 ELSE 0, d |-> IF f < 0 THEN d \o Zeros(-f) ELSE d, f |-> IF f < 0 THEN 0 ELSE f]

(* A whole number of 10^-sc printed with sc digits after the point.            *)
NumText(neg, d, sc) ==
  LET e == Strip(d)
      p == IF Len(e) <= sc THEN Zeros(sc + 1 - Len(e)) \o e ELSE e IN
  (IF neg = 1 THEN <<45>> ELSE <<>>) \o Dig(SubSeq(p, 1, Len(p) - sc)) \o (IF sc = 0 THEN <<>> ELSE <<46>> \o Dig(SubSeq(p, Len(p) - sc + 1, Len(p))))

Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
TrueTexts == {<<84>>, <<49>>, <<84, 82, 85, 69>>}      \* T 1 TRUE, in any case
FalseTexts == {<<70>>, <<48>>, <<70, 65, 76, 83, 69>>}
=============================================================================
