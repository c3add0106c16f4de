------------------------------ MODULE TraceUtil ------------------------------
(* Accepts the answers of the building blocks that the definitions allow.      *)
EXTENDS Instants, Texts, FiniteSets, Json, IOUtils, TLC
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE
B(x) == IF x THEN 1 ELSE 0
(* Every answer of a batch has to be as wanted; the first that is not is shown. *)
All(n, W(_), G(_)) == \A k \in 1..n : Say(G(k) = W(k), <<"item", k, "want", W(k), "got", G(k)>>)
Ok(e) == Say(e.a.k = "ok", "ok")
NN(e) == Say(e.a.nn = 1, "nullable form agrees")

LikeRes(e, s) ==
  CASE e.fn = "like" -> Like(s, e.p, e.esc, FALSE)
    [] e.fn = "ilike" -> Like(s, e.p, e.esc, TRUE)
    [] e.fn = "simple" -> Contains(s, e.p, FALSE)
    [] e.fn = "isimple" -> Contains(s, e.p, TRUE)
    [] e.fn = "regexp" -> Regexp(s, e.tree)
CmpRes(a, b) == <<B(StrLt(a, b)), B(StrLe(a, b)), B(StrLt(b, a)), B(StrLe(b, a)), B(a = b), B(a # b),
                  IF a = b THEN 0 ELSE IF StrLt(a, b) THEN -1 ELSE 1>>

ExtRes(f, v) ==
  CASE f \in SubUnits -> <<v[2] % 60, v[3]>>
    [] f = "epoch" -> <<v[1], v[2], 0>>
    [] f = "dateepoch" -> <<v[1], 0, 0>>
    [] OTHER -> Extract(f, v[1], v[2])
TruncRes(f, v) == IF f \in SubUnits THEN <<v[1], v[2], 0>> ELSE LET r == Trunc(f, v[1], v[2]) IN <<r[1], r[2], 0>>
DiffOk(e, k) ==
  LET a == e.vs[k][1] b == e.vs[k][2] g == e.a.r[k] IN
  CASE e.f \in SubUnits -> Say(g = Whole(Length(a, b), SubDim(e.f)), <<"item", k, Whole(Length(a, b), SubDim(e.f)), g>>)
    [] e.f = "second" -> Say(g = Whole(Length(a, b), 0), <<"item", k, Whole(Length(a, b), 0), g>>)
    [] e.f \in MonthUnits -> Say(g \in {DiffWhole(e.f, a, b), DiffFields(e.f, a, b)}, <<"item", k, DiffWhole(e.f, a, b), g>>)
    [] OTHER -> Say(g = DiffWhole(e.f, a, b), <<"item", k, DiffWhole(e.f, a, b), g>>)

FmtRes(e, v) ==
  LET t == CASE e.t \in {"date", "strdate"} -> DateText(v[1])
             [] e.t \in {"hms", "strtime"} -> TimeText(v[2])
             [] e.t \in {"ts", "str"} -> StampText(v, e.p) IN
  IF e.t \in {"date", "hms", "ts"} /\ Len(t) >= e.max THEN <<>> ELSE t

(* Division of [A, B) among n workers; A is written as 0.                      *)
IvlOk(e) ==
  LET r == e.a.r m == Len(r) tot == e.size IN
  /\ Say((e.a.empty = 1) = (tot = 0), "empty")
  /\ IF tot = 0 THEN Say(m = 0, "no intervals")
     ELSE /\ Say(m = (IF e.n < tot THEN e.n ELSE tot), <<"number of intervals", IF e.n < tot THEN e.n ELSE tot>>)
          /\ \A k \in 1..m :
               LET x == r[k] IN
               Say(/\ x[3] = k - 1
                   /\ x[1] = (IF k = 1 THEN 0 ELSE r[k - 1][2])
                   /\ x[4] = x[2] - x[1]
                   /\ x[4] = (tot \div e.n) + (IF k <= tot % e.n THEN 1 ELSE 0), <<"interval", k, x>>)
          /\ Say(r[m][2] = tot, <<"covers", tot>>)

SortOk(e) ==
  LET n == Len(e.ks) ks == e.a.ks vs == e.a.vs IN
  /\ Say(Len(ks) = n /\ Len(vs) = n, "length")
  /\ Say(\A k \in 1..n : vs[k] \in 0..(n - 1) /\ ks[k] = e.ks[vs[k] + 1], "each value keeps its key")
  /\ Say(Cardinality({vs[k] : k \in 1..n}) = n, "no value lost")
  /\ Say(\A k \in 1..(n - 1) : IF e.desc = 1 THEN ks[k] >= ks[k + 1] ELSE ks[k] <= ks[k + 1], "sorted")
  /\ Say(e.alg # "ins" \/ (\A k \in 1..(n - 1) : ks[k] = ks[k + 1] => vs[k] < vs[k + 1]), "stable")

(* Quantiles: values are in 16ths, results in 256ths; q is e.qn / 16.          *)
RECURSIVE Cat(_, _)
Cat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Cat(ss, k + 1)
QRes(vals, qn, how, isint) ==
  IF vals = <<>> THEN <<>>
  ELSE LET n == Len(vals)
           s == SortSeq(vals, LAMBDA a, b : a < b)
           pos == (n - 1) * qn            \* in 16ths
           lo == pos \div 16
           hi == (pos + 15) \div 16
           ne == (pos + 8) \div 16
           f == IF how = "midpoint" THEN 8 ELSE pos % 16
           x == CASE how = "lower" -> 16 * s[lo + 1]
                  [] how = "higher" -> 16 * s[hi + 1]
                  [] how = "nearest" -> 16 * s[ne + 1]
                  [] OTHER -> IF lo = hi THEN 16 * s[lo + 1] ELSE 16 * s[lo + 1] + (s[hi + 1] - s[lo + 1]) * f IN
       <<IF isint THEN 256 * TDiv(x, 256) ELSE x>>
QuantOk(e) ==
  LET w == QRes(Cat(e.parts, 1), e.qn, e.interp, e.isint) IN
  /\ Say(e.a.cur = w, <<"quantile", w>>)
  /\ Say(e.a.fin = w, <<"final quantile", w>>)
  /\ Say(e.a.empty = B(Cat(e.parts, 1) = <<>>), "empty")
  /\ Say(\A k \in 1..Len(e.a.mid) : e.a.mid[k] = QRes(e.parts[e.merges[k][2] + 1], e.qn, e.interp, e.isint) \/ e.chain, "intermediate quantile")

(* Approximate quantiles: within the data, in order, total weight kept, and    *)
(* close in rank.  Results come as <<largest value not above, equal?>> ranks:  *)
(* e.a.lo[k] = values below the answer, e.a.hi[k] = values not above it.       *)
TdigOk(e) ==
  LET n == e.n IN
  /\ Say(e.a.w = n, <<"weight", n>>)
  /\ Say(e.a.own = 1, "the preset quantile is that quantile")
  /\ Say(\A k \in 1..Len(e.qs) : e.a.inside[k] = 1, "within the data")
  /\ Say(\A k \in 1..(Len(e.qs) - 1) : e.a.mono[k] = 1, "monotone")
  /\ Say(\A k \in 1..Len(e.qs) :
           LET r == e.qs[k] * n                \* in 1024ths
               t == e.tol * n + 2048 IN
           1024 * e.a.lo[k] - r <= t /\ r - 1024 * e.a.hi[k] <= t, <<"rank", [k \in 1..Len(e.qs) |-> <<e.qs[k] * n, 1024 * e.a.lo[k], 1024 * e.a.hi[k]>>]>>)

MaxN(a, b) == IF a < b THEN b ELSE a
RECURSIVE RegMax(_, _, _)
RegMax(S, k, m) == IF k > Len(S) THEN m ELSE RegMax(S, k + 1, MaxN(m, S[k]))
Near(est, n, pm) == Abs(est - n) * 1000 <= pm * n + 2000
HllOk(e) ==
  /\ IF e.small = 1 THEN \A k \in 1..Len(e.a.regs) : Say(e.a.regs[k] = RegMax(e.want[k], 1, 0), <<"register", k>>) ELSE TRUE
  /\ Say(\A k \in 1..Len(e.ns) : Near(e.a.sizes[k], e.ns[k], e.pm), <<"estimates", e.ns>>)
  /\ Say(Near(e.a.total, e.nu, e.pm), <<"estimate of the union", e.nu>>)
RateOk(k, b) == (* 2^b registers give an error of at most k percent, unless the limits of 4 and 16 apply: 1.04/sqrt(2^b) <= k/100 *)
  /\ b \in 4..16
  /\ b < 16 => 10816 <= k * k * (2 ^ b)          \* 104^2
  /\ b > 4 => k * k * (2 ^ (b - 1)) < 10816

CdsOk(e) ==
  LET S(p) == {p[k][2] : k \in 1..Len(p)} IN
  /\ Say(e.a.none = 0, "no set")
  /\ Say(\A k \in 1..Len(e.a.sizes) : e.a.sizes[k] = Cardinality(S(e.parts[k])), "sizes")
  /\ Say(e.a.total = Cardinality(UNION {S(e.parts[k]) : k \in 1..Len(e.parts)}), <<"union", Cardinality(UNION {S(e.parts[k]) : k \in 1..Len(e.parts)})>>)

Step(e) ==
  /\ Ok(e)
  /\ CASE e.op = "start" -> TRUE
       [] e.op = "like" -> /\ NN(e)
                           /\ All(Len(e.ss), LAMBDA k : B(LikeRes(e, e.ss[k])), LAMBDA k : e.a.r[k])
       [] e.op = "cmp" -> NN(e) /\ All(Len(e.ss), LAMBDA k : CmpRes(e.ss[k][1], e.ss[k][2]), LAMBDA k : e.a.r[k])
       [] e.op = "ext" -> All(Len(e.vs), LAMBDA k : ExtRes(e.f, e.vs[k]), LAMBDA k : e.a.r[k])
       [] e.op = "trunc" -> All(Len(e.vs), LAMBDA k : TruncRes(e.f, e.vs[k]), LAMBDA k : e.a.r[k])
       [] e.op = "add" -> NN(e) /\ All(Len(e.vs), LAMBDA k : AddIn(e.f, e.n, e.vs[k], e.p), LAMBDA k : e.a.r[k])
       [] e.op = "diff" -> NN(e) /\ \A k \in 1..Len(e.vs) : DiffOk(e, k)
       [] e.op = "todate" -> NN(e) /\ All(Len(e.vs), LAMBDA k : <<e.vs[k][1], 0, 0>>, LAMBDA k : e.a.r[k])
       [] e.op = "totime" -> NN(e) /\ All(Len(e.vs), LAMBDA k : <<0, e.vs[k][2], e.vs[k][3] - (e.vs[k][3] % P10(9 - e.q))>>, LAMBDA k : e.a.r[k])
       [] e.op = "parse" ->
            \A k \in 1..Len(e.ss) :
              LET w == e.ws[k] IN
              CASE w.kind = "bad" -> Say(e.a.r[k] = <<>>, <<"item", k, "no value">>)
                [] w.kind = "raw" -> Say(e.a.r[k] = <<w.v>>, <<"item", k, w.v>>)
                [] OTHER -> /\ Say(e.ss[k] = WrittenText(e.t, w.r), <<"text", k, WrittenText(e.t, w.r)>>)
                            /\ Say(e.a.r[k] = <<WrittenInstant(e.t, w.r, e.p)>>, <<"item", k, WrittenInstant(e.t, w.r, e.p)>>)
       [] e.op = "fmt" -> All(Len(e.vs), LAMBDA k : FmtRes(e, e.vs[k]), LAMBDA k : e.a.r[k])
       [] e.op = "ivl" -> IvlOk(e)
       [] e.op = "sort" -> SortOk(e)
       [] e.op = "quant" -> QuantOk(e)
       [] e.op = "tdig" -> TdigOk(e)
       [] e.op = "hll" -> HllOk(e)
       [] e.op = "rank" -> All(Len(e.vs), LAMBDA k : (IF e.lz[k] < e.b THEN e.lz[k] ELSE e.b) + 1, LAMBDA k : e.a.r[k])
       [] e.op = "hllsize" -> \A k \in 1..100 : Say(RateOk(k, e.a.r[k]), <<"rate", k>>)
       [] e.op = "cds" -> CdsOk(e)
       [] e.op = "split" -> Say(e.a.r = Split(e.s, e.d, e.max), Split(e.s, e.d, e.max))
       [] e.op = "join" -> Say(e.a.r = Join(e.ss, e.d), Join(e.ss, e.d))
       [] e.op = "text" -> TextOk(e, Say)

Init == i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == Init /\ [][Next]_i
Accepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
