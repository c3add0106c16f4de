----------------------------- MODULE Relational -----------------------------
(* The relational algebra the engine evaluates, on bags of rows.               *)
(*                                                                             *)
(* A cell is <<>> (NULL) or <<v>>.  Classes of values (field c of expressions  *)
(* and columns): "i" integers, "b" booleans 0/1, "f" floating point and        *)
(* decimals in thousandths, "s" strings (sequences of codes), "t" instants in  *)
(* seconds, "D" dates in days.  A table is a sequence of rows; a scan adds the *)
(* row number (rowid) as a last column.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Strings
DT == INSTANCE DateTime

NULL == <<>>
Bool(x) == IF x THEN <<1>> ELSE <<0>>

Absv(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Absv(a) \div Absv(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
(* Rounding of a quotient to the nearest, halves away from zero.               *)
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))

(* Conversion between the numeric classes.                                     *)
Conv(c, from, to) == IF c = NULL \/ from = to THEN c
                     ELSE IF to = "f" THEN <<c[1] * 1000>>
                     ELSE IF from = "f" /\ to = "i" THEN <<RDiv(c[1], 1000)>>
                     ELSE c

Not3(a) == IF a = NULL THEN NULL ELSE <<1 - a[1]>>
And3(a, b) == IF a = <<0>> \/ b = <<0>> THEN <<0>> ELSE IF a = NULL \/ b = NULL THEN NULL ELSE <<1>>
Or3(a, b) == IF a = <<1>> \/ b = <<1>> THEN <<1>> ELSE IF a = NULL \/ b = NULL THEN NULL ELSE <<0>>

Less(cls, a, b) == IF cls = "s" THEN StrLt(a, b) ELSE a < b
CmpV(op, cls, a, b) ==
  CASE op = "eq" -> a = b
    [] op = "ne" -> a # b
    [] op = "lt" -> Less(cls, a, b)
    [] op = "gt" -> Less(cls, b, a)
    [] op = "le" -> ~Less(cls, b, a)
    [] op = "ge" -> ~Less(cls, a, b)

RECURSIVE Bits(_, _, _, _)
Bits(op, a, b, k) ==
  IF k = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           r == CASE op = "bwand" -> x * y [] op = "bwor" -> (IF x + y > 0 THEN 1 ELSE 0) [] op = "bwxor" -> (x + y) % 2 IN
       r + 2 * Bits(op, a \div 2, b \div 2, k - 1)
(* Two's complement over 16 bits is enough for the values used.                *)
Wrap(v) == IF v >= 32768 THEN v - 65536 ELSE v
BitOp(op, a, b) == Wrap(Bits(op, a % 65536, b % 65536, 16))

Sod(t) == t % 86400
Dno(t) == t \div 86400
Inst(p) == p[1] * 86400 + p[2]

(* Compares rows by sort fields: f = seq of [j, d (descending), nf (nulls first), c]. *)
RECURSIVE KeyCmp(_, _, _, _)
KeyCmp(fs, k, a, b) ==   \* -1, 0, 1
  IF k > Len(fs) THEN 0
  ELSE LET f == fs[k] x == a[f.j] y == b[f.j] IN
       IF x = y THEN KeyCmp(fs, k + 1, a, b)
       ELSE IF x = NULL THEN (IF f.nf = 1 THEN -1 ELSE 1)
       ELSE IF y = NULL THEN (IF f.nf = 1 THEN 1 ELSE -1)
       ELSE IF Less(f.c, x[1], y[1]) THEN (IF f.d = 1 THEN 1 ELSE -1)
       ELSE (IF f.d = 1 THEN -1 ELSE 1)
SortRows(fs, rs) == SortSeq(rs, LAMBDA a, b : KeyCmp(fs, 1, a, b) < 0)
Keys(fs, r) == [k \in 1..Len(fs) |-> r[fs[k].j]]

RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)

NonNull(cs) == LET F(c) == c # NULL IN LET t == SelectSeq(cs, F) IN [k \in 1..Len(t) |-> t[k][1]]
Set(s) == {s[k] : k \in 1..Len(s)}
Least(cls, S) == CHOOSE x \in S : \A y \in S : ~Less(cls, y, x)
Greatest(cls, S) == CHOOSE x \in S : \A y \in S : ~Less(cls, x, y)

(* Aggregate f over the cells cs (of class cls); n = number of rows.           *)
AggCells(f, cls, cs, n) ==
  LET v == NonNull(cs) IN
  CASE f = "count_star" -> <<n>>
    [] f = "count" -> <<Len(v)>>
    [] f = "count_distinct" -> <<Cardinality(Set(v))>>
    [] f = "sum" -> IF v = <<>> THEN NULL ELSE <<SumSeq(v, Len(v))>>
    [] f = "min" -> IF v = <<>> THEN NULL ELSE <<Least(cls, Set(v))>>
    [] f = "max" -> IF v = <<>> THEN NULL ELSE <<Greatest(cls, Set(v))>>
    [] f = "avg" -> IF v = <<>> THEN NULL
                    ELSE <<RDiv(SumSeq(v, Len(v)) * (IF cls = "f" THEN 1 ELSE 1000), Len(v))>>
    [] f \in {"sample", "single"} -> IF v = <<>> THEN NULL ELSE <<v[1]>>

RECURSIVE EvalE(_, _, _)

(* Window functions see all the rows of their input.                           *)
EvalW(e, rs, i) ==
  LET P(k) == [q \in 1..Len(e.p) |-> EvalE(e.p[q], rs, k)]
      O(k) == [q \in 1..Len(e.o) |-> EvalE(e.o[q].k, rs, k)]
      mine == P(i)
      part == {k \in 1..Len(rs) : P(k) = mine}
      fs == [q \in 1..Len(e.o) |-> [j |-> q, d |-> e.o[q].d, nf |-> e.o[q].nf, c |-> e.o[q].k.c]]
      ok == [k \in part |-> O(k)]
      Bef(a, b) == KeyCmp(fs, 1, ok[a], ok[b]) < 0
      before == {k \in part : Bef(k, i)}
      upto == {k \in part : ~Bef(i, k)}                  \* peers included
      Arg(k) == EvalE(e.a[1], rs, k)
      (* the row at distance n in the (unique) order of the partition *)
      Nth(n) == CHOOSE k \in part : Cardinality({q \in part : Bef(q, k)}) = n
      frame == IF Len(e.o) = 0 THEN part ELSE upto
      cells == [q \in 1..Cardinality(frame) |-> Arg(SetToSeq(frame)[q])]
      pos == Cardinality(before)
      sz == Cardinality(part)
  IN
  CASE e.f = "row_number" -> <<pos + 1>>
    [] e.f = "rank" -> <<pos + 1>>
    [] e.f = "dense_rank" -> <<Cardinality({ok[k] : k \in before}) + 1>>
    [] e.f = "percent_rank" -> IF sz = 1 THEN <<0>> ELSE <<RDiv(pos * 1000, sz - 1)>>
    (* the engine's tiles are all of ceil(size / n) rows but the last one (SQL balances them) *)
    [] e.f = "ntile" -> <<(pos \div ((sz + e.n - 1) \div e.n)) + 1>>
    [] e.f = "lag" -> IF pos - e.n >= 0 /\ pos - e.n < sz THEN Arg(Nth(pos - e.n)) ELSE NULL
    [] e.f = "lead" -> IF pos + e.n < sz /\ pos + e.n >= 0 THEN Arg(Nth(pos + e.n)) ELSE NULL
    [] e.f = "first" -> Arg(Nth(0))
    [] e.f = "last" -> Arg(i)              \* the frame ends at the current row
    [] e.f = "count_star" -> <<Cardinality(frame)>>
    [] OTHER -> AggCells(e.f, e.a[1].c, cells, Cardinality(frame))

EvalE(e, rs, i) ==
  LET A(k) == EvalE(e.a[k], rs, i)
      AC(k, c) == Conv(A(k), e.a[k].c, c)
  IN
  CASE e.e = "col" -> rs[i][e.j]
    [] e.e = "lit" -> e.v
    [] e.e \in {"add", "sub", "mul", "div", "mod"} ->
         LET x == IF e.e = "mul" THEN A(1) ELSE AC(1, e.c)
             y == IF e.e = "mul" THEN A(2) ELSE AC(2, e.c) IN
         IF x = NULL \/ y = NULL THEN NULL
         ELSE (CASE e.e = "add" -> <<x[1] + y[1]>>
                [] e.e = "sub" -> <<x[1] - y[1]>>
                [] e.e = "mul" -> IF e.a[1].c = "f" /\ e.a[2].c = "f" THEN <<RDiv(x[1] * y[1], 1000)>> ELSE <<x[1] * y[1]>>
                [] e.e = "div" -> IF y[1] = 0 THEN NULL
                                  ELSE IF e.c = "f" THEN <<RDiv(x[1] * 1000, y[1])>> ELSE <<TDiv(x[1], y[1])>>
                [] e.e = "mod" -> IF y[1] = 0 THEN NULL ELSE <<TMod(x[1], y[1])>>)
    [] e.e = "neg" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE <<-x[1]>>
    [] e.e \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
         LET x == AC(1, e.cc) y == AC(2, e.cc) IN
         IF x = NULL \/ y = NULL THEN NULL ELSE Bool(CmpV(e.e, e.cc, x[1], y[1]))
    [] e.e = "bweq" -> LET x == AC(1, e.cc) y == AC(2, e.cc) IN Bool(x = y)
    [] e.e = "not" -> Not3(A(1))
    [] e.e = "and" -> And3(A(1), A(2))
    [] e.e = "or" -> Or3(A(1), A(2))
    [] e.e = "isnull" -> Bool(A(1) = NULL)
    [] e.e = "case" -> IF A(1) = <<1>> THEN AC(2, e.c) ELSE AC(3, e.c)
    [] e.e = "cast" -> AC(1, e.c)
    [] e.e = "in" ->
         LET x == A(1) L == {e.l[k].v : k \in 1..Len(e.l)} IN
         IF x = NULL THEN NULL ELSE IF x \in L THEN <<1>> ELSE IF NULL \in L THEN NULL ELSE <<0>>
    [] e.e \in {"bwand", "bwor", "bwxor"} ->
         LET x == A(1) y == A(2) IN IF x = NULL \/ y = NULL THEN NULL ELSE <<BitOp(e.e, x[1], y[1])>>
    [] e.e = "bwnot" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE <<-x[1] - 1>>
    [] e.e = "floor" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE <<(x[1] \div 1000) * 1000>>
    [] e.e = "ceil" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE <<-((-x[1]) \div 1000) * 1000>>
    [] e.e = "like" ->
         LET x == A(1) IN
         IF x = NULL THEN NULL
         ELSE LET p == IF e.ilike = 1 THEN LowerS(e.p) ELSE e.p IN
              Bool(Like(x[1], p, e.escc, e.ilike = 1) # (e.not = 1))
    [] e.e = "regexp" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE Bool(Regexp(x[1], e.ra) # (e.not = 1))
    [] e.e = "charlen" -> LET x == A(1) IN IF x = NULL THEN NULL ELSE <<Len(x[1])>>
    [] e.e = "extract" ->
         LET x == A(1) IN
         IF x = NULL THEN NULL
         ELSE IF e.f = "epoch" THEN (IF e.a[1].c = "D" THEN <<x[1] * 86400>> ELSE x)
         ELSE IF e.a[1].c = "D" THEN <<DT!Extract(e.f, x[1], 0)>>
         ELSE <<DT!Extract(e.f, Dno(x[1]), Sod(x[1]))>>
    [] e.e = "trunc" ->
         LET x == A(1) IN
         IF x = NULL THEN NULL
         ELSE IF e.a[1].c = "D" THEN <<Inst(DT!Trunc(e.f, x[1], 0))>>
         ELSE <<Inst(DT!Trunc(e.f, Dno(x[1]), Sod(x[1])))>>
    [] e.e \in {"dateadd", "datesub"} ->
         LET x == A(1) n == A(2) IN
         IF x = NULL \/ n = NULL THEN NULL
         ELSE LET m == IF e.e = "datesub" THEN -n[1] ELSE n[1]
                  p == IF e.a[1].c = "D" THEN DT!Add(e.f, m, x[1], 0) ELSE DT!Add(e.f, m, Dno(x[1]), Sod(x[1])) IN
              IF e.c = "D" THEN <<p[1]>> ELSE <<Inst(p)>>
    [] e.e = "datediff" ->
         LET x == A(1) y == A(2)
             D(c, v) == IF c = "D" THEN v ELSE Dno(v)
             S(c, v) == IF c = "D" THEN 0 ELSE Sod(v) IN
         IF x = NULL \/ y = NULL THEN NULL
         ELSE <<DT!Diff(e.f, D(e.a[1].c, x[1]), S(e.a[1].c, x[1]), D(e.a[2].c, y[1]), S(e.a[2].c, y[1]))>>
    [] e.e = "win" -> EvalW(e, rs, i)

(* The bag a query yields, as a sequence in some order.                        *)
FilterRows(rs, c) ==
  LET keep == [k \in 1..Len(rs) |-> EvalE(c, rs, k) = <<1>>]
      F[k \in 0..Len(rs)] == IF k = 0 THEN <<>> ELSE IF keep[k] THEN Append(F[k - 1], rs[k]) ELSE F[k - 1] IN
  F[Len(rs)]

AggRows(rs, ks, as) ==
  LET key == [k \in 1..Len(rs) |-> [q \in 1..Len(ks) |-> EvalE(ks[q], rs, k)]]
      groups == IF Len(ks) = 0 THEN <<(<<>>)>> ELSE SetToSeq({key[k] : k \in 1..Len(rs)})
      Row(g) ==
        LET idx == IF Len(ks) = 0 THEN [k \in 1..Len(rs) |-> k] ELSE SetToSeq({k \in 1..Len(rs) : key[k] = g})
            V(a) == IF a.f = "count_star" THEN AggCells(a.f, "i", <<>>, Len(idx))
                    ELSE AggCells(a.f, a.a[1].c, [q \in 1..Len(idx) |-> EvalE(a.a[1], rs, idx[q])], Len(idx)) IN
        g \o [q \in 1..Len(as) |-> V(as[q])]
  IN [k \in 1..Len(groups) |-> Row(groups[k])]

JoinRows(l, r, c, jt, nr) ==
  LET M(x) == LET F(y) == EvalE(c, <<x \o y>>, 1) = <<1>> IN SelectSeq(r, F)
      One(x) == LET m == M(x) IN
                CASE jt = "semi" -> IF m = <<>> THEN <<>> ELSE <<x>>
                  [] jt = "anti" -> IF m = <<>> THEN <<x>> ELSE <<>>
                  [] jt = "left" /\ m = <<>> -> <<x \o [k \in 1..nr |-> NULL]>>
                  [] OTHER -> [k \in 1..Len(m) |-> x \o m[k]] IN
  FlattenSeq([k \in 1..Len(l) |-> One(l[k])])

Slice(s, off, lim) ==
  LET a == SubSeq(s, off + 1, Len(s)) IN IF lim = 0 \/ lim >= Len(a) THEN a ELSE SubSeq(a, 1, lim)

WithRowid(rs) == [k \in 1..Len(rs) |-> Append(rs[k], <<k - 1>>)]

RECURSIVE Eval(_, _, _)
Eval(q, tabs, kept) ==
  CASE q.n = "scan" -> IF q.rid = 1 THEN WithRowid(tabs[q.t]) ELSE tabs[q.t]
    [] q.n = "res" -> kept[q.t]
    [] q.n = "filter" -> FilterRows(Eval(q.in, tabs, kept), q.c)
    [] q.n = "proj" -> LET rs == Eval(q.in, tabs, kept) IN
                       [k \in 1..Len(rs) |-> [j \in 1..Len(q.e) |-> EvalE(q.e[j], rs, k)]]
    [] q.n = "agg" -> AggRows(Eval(q.in, tabs, kept), q.k, q.a)
    [] q.n = "sort" -> Slice(SortRows(q.f, Eval(q.in, tabs, kept)), q.offset, q.limit)
    [] q.n = "join" -> JoinRows(Eval(q.l, tabs, kept), Eval(q.r, tabs, kept), q.c, q.jt, q.nr)

(* --- which answers are right ------------------------------------------------*)
Count(s, x) == LET F(y) == y = x IN Len(SelectSeq(s, F))
BagEq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
InBag(a, b) == \A k \in 1..Len(a) : Count(a, a[k]) <= Count(b, a[k])

(* A sort at the root fixes the order of the keys, ties are free; with a limit *)
(* or an offset any choice among ties will do.                                 *)
Right(q, ans, tabs, kept) ==
  IF q.n = "sort" THEN
    LET full == SortRows(q.f, Eval(q.in, tabs, kept))
        want == Slice(full, q.offset, q.limit) IN
    /\ Len(ans) = Len(want)
    /\ \A k \in 1..Len(ans) : Keys(q.f, ans[k]) = Keys(q.f, want[k])
    /\ InBag(ans, full)
  ELSE BagEq(ans, Eval(q, tabs, kept))
=============================================================================
