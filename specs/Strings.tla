------------------------------ MODULE Strings ------------------------------
(* Strings are sequences of byte codes.  The string predicates of the engine:  *)
(* order, LIKE / ILIKE with escape and character classes, POSIX regexps.       *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LtFrom(a, b, i + 1)
StrLt(a, b) == LtFrom(a, b, 1)
StrLe(a, b) == a = b \/ StrLt(a, b)

StrCmp(op, a, b) ==
  CASE op = "<"  -> StrLt(a, b)
    [] op = "<=" -> StrLe(a, b)
    [] op = ">"  -> StrLt(b, a)
    [] op = ">=" -> StrLe(b, a)
    [] op = "="  -> a = b
    [] op = "<>" -> a # b

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]

PCT == 37    \* %
UND == 95    \* _
LBR == 91    \* [
RBR == 93    \* ]

(* Position of the closing bracket of the class that opens at j.               *)
RECURSIVE Close(_, _)
Close(p, j) == IF p[j] = RBR THEN j ELSE Close(p, j + 1)

(* LIKE: does s from i on match p from j on?  With ic the pattern is lower     *)
(* case already (the caller's obligation) and s is folded.                     *)
RECURSIVE LikeAt(_, _, _, _, _, _)
LikeAt(s, p, i, j, esc, ic) ==
  LET C(k) == IF ic THEN Lower(s[k]) ELSE s[k] IN
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = esc THEN
       j < Len(p) /\ i <= Len(s) /\ C(i) = p[j + 1] /\ LikeAt(s, p, i + 1, j + 2, esc, ic)
  ELSE IF p[j] = PCT THEN
       LikeAt(s, p, i, j + 1, esc, ic) \/ (i <= Len(s) /\ LikeAt(s, p, i + 1, j, esc, ic))
  ELSE IF p[j] = UND THEN i <= Len(s) /\ LikeAt(s, p, i + 1, j + 1, esc, ic)
  ELSE IF p[j] = LBR THEN
       i <= Len(s) /\ LET c == Close(p, j + 1) IN
         (\E k \in (j + 1)..(c - 1) : p[k] = C(i)) /\ LikeAt(s, p, i + 1, c + 1, esc, ic)
  ELSE i <= Len(s) /\ C(i) = p[j] /\ LikeAt(s, p, i + 1, j + 1, esc, ic)
Like(s, p, esc, ic) == LikeAt(s, p, 1, 1, esc, ic)

(* The "simple" form: the pattern occurs in the string.                        *)
Contains(s, p, ic) ==
  \E i \in 0..(Len(s) - Len(p)) :
     \A j \in 1..Len(p) : (IF ic THEN Lower(s[i + j]) ELSE s[i + j]) = p[j]

(* Regular expressions as trees; Ends(r, s, i) = positions after a match of r  *)
(* in s that begins at i.                                                      *)
RECURSIVE Ends(_, _, _)
RECURSIVE Star(_, _, _)
Star(r, s, I) ==
  LET J == I \cup UNION {Ends(r, s, i) : i \in I} IN IF J = I THEN I ELSE Star(r, s, J)
Ends(r, s, i) ==
  CASE r.x = "chr"  -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.x = "any"  -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] r.x = "cls"  -> IF i <= Len(s) /\ (r.neg # (\E k \in 1..Len(r.cs) : r.cs[k] = s[i])) THEN {i + 1} ELSE {}
    [] r.x = "seq"  -> UNION {Ends(r.b, s, j) : j \in Ends(r.a, s, i)}
    [] r.x = "alt"  -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
    [] r.x = "star" -> Star(r.a, s, {i})
    [] r.x = "plus" -> UNION {Star(r.a, s, {j}) : j \in Ends(r.a, s, i)}
    [] r.x = "opt"  -> {i} \cup Ends(r.a, s, i)
    [] r.x = "eps"  -> {i}
Regexp(s, r) == (Len(s) + 1) \in Ends(r, s, 1)

(* Decimal digits of a number, as codes.                                       *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
