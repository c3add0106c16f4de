------------------------------- MODULE Texts -------------------------------
(* Text utilities: splitting, joining, trimming, quoting, base64, and the      *)
(* rewriting of SQL text that has to leave string literals alone.              *)
EXTENDS Integers, Sequences

IsWs(c) == c = 32 \/ (c >= 9 /\ c <= 13)
At(s, d, p) == p + Len(d) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(d) - 1) = d
(* Splitting by a separator; max < 0: without limit.                           *)
RECURSIVE SplitBy(_, _, _, _, _)
SplitBy(s, d, from, p, max) ==
  IF p > Len(s) \/ max = 0 THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF At(s, d, p) THEN <<SubSeq(s, from, p - 1)>> \o SplitBy(s, d, p + Len(d), p + Len(d), max - 1)
  ELSE SplitBy(s, d, from, p + 1, max)
(* Splitting by white space: words; with a limit the rest comes unchanged,     *)
(* from the white space on that ended the last word.                           *)
RECURSIVE SkipWs(_, _)
SkipWs(s, p) == IF p <= Len(s) /\ IsWs(s[p]) THEN SkipWs(s, p + 1) ELSE p
RECURSIVE WordEnd(_, _)
WordEnd(s, p) == IF p <= Len(s) /\ ~IsWs(s[p]) THEN WordEnd(s, p + 1) ELSE p
RECURSIVE Words(_, _, _)
Words(s, p, max) ==
  LET a == SkipWs(s, p) b == WordEnd(s, a) IN
  IF a > Len(s) THEN <<>>
  ELSE IF b > Len(s) THEN <<SubSeq(s, a, Len(s))>>
  ELSE IF max = 1 THEN <<SubSeq(s, a, b - 1), SubSeq(s, b, Len(s))>>
  ELSE <<SubSeq(s, a, b - 1)>> \o Words(s, b, max - 1)
Split(s, d, max) == IF d = <<>> THEN Words(s, 1, max) ELSE SplitBy(s, d, 1, 1, max)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, d, k) == IF k > Len(ss) THEN <<>> ELSE (IF k > 1 THEN d ELSE <<>>) \o ss[k] \o JoinFrom(ss, d, k + 1)
Join(ss, d) == JoinFrom(ss, d, 1)

RECURSIVE LastNonWs(_, _)
LastNonWs(s, p) == IF p >= 1 /\ IsWs(s[p]) THEN LastNonWs(s, p - 1) ELSE p
Strip(s) == SubSeq(s, SkipWs(s, 1), LastNonWs(s, Len(s)))

(* New lines, returns and tabs outside quotes become spaces.  State: the quote *)
(* that is open (0: none) and whether the next character is escaped.           *)
RECURSIVE Unnl(_, _, _, _)
Unnl(s, p, q, esc) ==
  IF p > Len(s) THEN <<<<>>, q = 0>>
  ELSE LET c == s[p]
           isq == c = 39 \/ c = 34
           q2 == IF isq /\ ~esc THEN (IF q = c THEN 0 ELSE IF q = 0 THEN c ELSE q) ELSE q
           o == IF ~isq /\ q = 0 /\ c \in {9, 10, 13} THEN 32 ELSE c
           r == Unnl(s, p + 1, q2, IF c = 92 THEN ~esc ELSE FALSE) IN
       << <<o>> \o r[1], r[2] >>

RECURSIVE Escd(_, _)
Escd(s, p) == IF p > Len(s) THEN <<>> ELSE (IF s[p] \in {34, 92} THEN <<92, s[p]>> ELSE <<s[p]>>) \o Escd(s, p + 1)

B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 97 + n - 26 ELSE IF n < 62 THEN 48 + n - 52 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_, _)
Base64(s, p) ==
  IF p > Len(s) THEN <<>>
  ELSE LET b(k) == IF p + k <= Len(s) THEN s[p + k] ELSE 0 IN
       <<B64(b(0) \div 4), B64((b(0) % 4) * 16 + b(1) \div 16),
         IF p + 1 <= Len(s) THEN B64((b(1) % 16) * 4 + b(2) \div 64) ELSE 61,
         IF p + 2 <= Len(s) THEN B64(b(2) % 64) ELSE 61>> \o Base64(s, p + 3)

(* Pieces of an SQL text: <<text, replacement>>; what is written is their      *)
(* texts, what comes out their replacements.                                   *)
RECURSIVE Side(_, _, _)
Side(ps, k, j) == IF k > Len(ps) THEN <<>> ELSE ps[k][j] \o Side(ps, k + 1, j)
RECURSIVE LitPos(_, _, _)
LitPos(ps, k, at) ==
  IF k > Len(ps) THEN <<>>
  ELSE (IF ps[k][3] = 1 THEN <<<<at, at + Len(ps[k][1])>>>> ELSE <<>>) \o LitPos(ps, k + 1, at + Len(ps[k][1]))
InLit(L, p) == LET h == {k \in 1..Len(L) : L[k][1] <= p /\ p < L[k][2]} IN IF h = {} THEN 0 ELSE L[CHOOSE k \in h : TRUE][2]

Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lo(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Map(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
TextOk(e, Say(_, _)) ==
  CASE e.fn = "strip" -> Say(e.a.r = Strip(e.s), Strip(e.s))
    [] e.fn = "upper" -> Say(e.a.r = Map(e.s, Up), Map(e.s, Up))
    [] e.fn = "lower" -> Say(e.a.r = Map(e.s, Lo), Map(e.s, Lo))
    [] e.fn = "sanitize" -> Say(e.a.r = Map(e.s, LAMBDA c : IF c < 32 THEN 32 ELSE c), "sanitized")
    [] e.fn = "unnl" -> LET w == Unnl(e.s, 1, 0, FALSE) IN Say(e.a.r = w[1] /\ (e.a.b = 1) = w[2], w)
    [] e.fn = "quoted" -> Say(e.a.r = <<34>> \o Escd(e.s, 1) \o <<34>>, Escd(e.s, 1))
    [] e.fn = "substr" -> Say(IF e.n >= Len(e.s) THEN e.a.r = e.s /\ e.a.p = <<>> ELSE e.a.r = SubSeq(e.s, 1, e.n) /\ e.a.p = <<46, 46, 46>>, "substring")
    [] e.fn \in {"hide", "shim"} -> Say(e.s = Side(e.ps, 1, 1), "pieces") /\ Say(e.a.r = Side(e.ps, 1, 2), Side(e.ps, 1, 2))
    [] e.fn = "lits" -> LET L == LitPos(e.ps, 1, 0) IN
         /\ Say(e.s = Side(e.ps, 1, 1), "pieces")
         /\ Say(e.a.r = L, L)
         /\ Say(\A k \in 1..Len(e.s) : e.a.in[k] = InLit(L, k - 1), "positions")
    [] e.fn = "b64" -> Say(e.a.r = Base64(e.s, 1), Base64(e.s, 1)) /\ Say(e.a.back = e.s, "decodes to the original")
=============================================================================
