---------------------------- MODULE EncoderStats ----------------------------
(* The statistics a chunk keeps about the values written to it: bounds of the  *)
(* values that are not null, whether there was a null, the number of values.   *)
(* A value is a pair <<hi, lo>> compared lexicographically: the two halves of  *)
(* a 64-bit word, or <<day, second>> for the dates that are kept in days.      *)
EXTENDS Integers, Sequences, FiniteSets
MinI == -2147483647 - 1

Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Le(x, y) == x = y \/ Lt(x, y)
MinV(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
MaxV(S) == CHOOSE x \in S : \A y \in S : Le(y, x)

(* 64-bit words: hi is signed, lo is the unsigned low half less 2^31.          *)
W(hi, lo) == <<hi, lo>>
W32(v) == IF v >= 0 THEN <<0, (v + MinI)>> ELSE <<-1, (v - MinI) >>   \* a 32-bit integer as a word

Range(bits) == CASE bits = 8 -> [lo |-> W32(-128), hi |-> W32(127)]
                 [] bits = 16 -> [lo |-> W32(-32768), hi |-> W32(32767)]
                 [] bits = 32 -> [lo |-> W32(MinI), hi |-> W32(2147483647)]
                 [] bits = 64 -> [lo |-> <<MinI, MinI>>, hi |-> <<2147483647, 2147483647>>]
SignedNull(bits) == Range(bits).lo
SignedNullArr(bits) == IF bits = 64 THEN <<MinI, MinI + 1>>
                       ELSE LET l == Range(bits).lo IN <<l[1], l[2] + 1>>

(* What a type's values are:  k: how raw data is taken in; nul: the null among *)
(* raw values, enul: among encoded ones, earr: the encoded null array.         *)
Num(bits) == [k |-> "num", nul |-> SignedNull(bits), enul |-> SignedNull(bits), earr |-> SignedNullArr(bits), rng |-> Range(64)]
Uns(m) == [k |-> "num", nul |-> W32(m), enul |-> W32(m), earr |-> W32(m - 1), rng |-> Range(64)]
Fp(n, a) == [k |-> "num", nul |-> n, enul |-> n, earr |-> a, rng |-> Range(64)]
Fixed(bits) == [Num(bits) EXCEPT !.k = "fixed", !.rng = Range(bits)]
(* Days: raw values are seconds, given as <<day, second of the day>>.          *)
Days(nul, enul, earr, lo, hi) == [k |-> "days", nul |-> nul, enul |-> enul, earr |-> earr, rng |-> [lo |-> <<lo, 0>>, hi |-> <<hi, 86399>>]]

TypeOf(t) ==
  CASE t \in {"bool", "i8"} -> Num(8)
    [] t = "i16" -> Num(16)
    [] t \in {"i32", "dict32"} -> Num(32)
    [] t \in {"i64", "dec"} -> Num(64)
    [] t = "dict8" -> Uns(255)
    [] t = "dict16" -> Uns(65535)
    [] t = "f32" -> Fp(<<940572672, MinI>>, <<941621248, MinI>>)     \* 2^-126, 2^-125 as doubles
    [] t = "f64" -> Fp(<<1048576, MinI>>, <<2097152, MinI>>)         \* 2^-1022, 2^-1021
    [] t = "time16" -> Fixed(16)
    [] t \in {"time32", "iv32"} -> Fixed(32)
    [] t \in {"dates64", "time64", "ts64", "iv64"} -> Num(64)
    [] t = "date16" -> Days(<<-1, 53632>>, <<-32768, 0>>, <<-32767, 0>>, -32768, 32767)
    [] t = "date32" -> Days(<<-24856, 74752>>, <<MinI, 0>>, <<MinI + 1, 0>>, MinI, 2147483647)
    [] t = "date64" -> Days(<<MinI, -1>>, <<MinI, -1>>, <<MinI, 0>>, MinI, 2147483647)

(* Statistics: seen holds the values, reduced to their bounds; fresh: bounds   *)
(* were never asked to be kept (arrays before any update); lost: a refused     *)
(* batch may have been counted in part.                                        *)
Zero == [seen |-> {}, nulls |-> FALSE, n |-> 0, bytes |-> 0, fresh |-> TRUE, lost |-> FALSE]
Norm(S) == IF S = {} THEN {} ELSE {MinV(S), MaxV(S)}

Fits(ty, v) == Le(ty.rng.lo, v) /\ Le(v, ty.rng.hi)
Refused(ty, vs) == ty.k = "days" /\ \E j \in 1..Len(vs) : vs[j] # ty.nul /\ ~Fits(ty, vs[j])
Taken(ty, v) == IF ty.k = "days" THEN <<v[1], 0>> ELSE v
Raw(s, ty, vs) ==
  LET live == {Taken(ty, vs[j]) : j \in {x \in 1..Len(vs) : vs[x] # ty.nul /\ Fits(ty, vs[x])}} IN
  [s EXCEPT !.seen = Norm(@ \cup live), !.nulls = @ \/ \E j \in 1..Len(vs) : vs[j] = ty.nul, !.fresh = FALSE]
Encoded(s, ty, vs, arr) ==
  LET live == {vs[j] : j \in {x \in 1..Len(vs) : vs[x] # ty.enul /\ (arr => vs[x] # ty.earr)}} IN
  [s EXCEPT !.seen = Norm(@ \cup live), !.nulls = @ \/ \E j \in 1..Len(vs) : vs[j] = ty.enul, !.fresh = FALSE]
(* Arrays: as[j] is <<TRUE, <<>> >> for a null array, <<FALSE, values>> else.  *)
Arrays(s, ty, as) ==
  LET els == UNION {{as[j][2][x] : x \in 1..Len(as[j][2])} : j \in 1..Len(as)} IN
  IF as = <<>> THEN s ELSE
  [s EXCEPT !.seen = Norm(@ \cup (els \ {ty.nul})), !.fresh = FALSE,
            !.nulls = @ \/ (\E j \in 1..Len(as) : as[j][1]) \/ ty.nul \in els]
Strs(s, lens) == [s EXCEPT !.nulls = @ \/ \E j \in 1..Len(lens) : lens[j] = 0]
Scalar(s, v, null) == IF null THEN [s EXCEPT !.nulls = TRUE] ELSE [s EXCEPT !.seen = Norm(@ \cup {v}), !.fresh = FALSE]
Join(s, r) == [s EXCEPT !.seen = Norm(@ \cup r.seen), !.nulls = @ \/ r.nulls, !.fresh = @ /\ r.fresh, !.lost = @ \/ r.lost]
Copy(s, r) == [r EXCEPT !.bytes = s.bytes]
Reset(s) == [s EXCEPT !.seen = {}, !.nulls = FALSE, !.fresh = TRUE, !.lost = FALSE]
Set(s, mn, mx, nulls) == [s EXCEPT !.seen = {mn, mx}, !.nulls = nulls, !.fresh = FALSE, !.lost = FALSE]

(* How many of the values len[from], ... fit the limit, taken in order.        *)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
FitCount(lens, limit) == CHOOSE n \in 0..Len(lens) : Sum(lens, n) <= limit /\ (n = Len(lens) \/ Sum(lens, n + 1) > limit)
=============================================================================
