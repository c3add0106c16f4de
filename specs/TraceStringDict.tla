--------------------------- MODULE TraceStringDict ---------------------------
(* Accepts exactly the traces of the real dictionaries that StringDict allows. *)
EXTENDS StringDict, Json, IOUtils
VARIABLE i

Trace == ndJsonDeserialize(IOEnv.TRACE)

Obs(e, exp) == IF e.a.r = exp THEN TRUE ELSE PrintT(<<"EXPECTED", i, exp>>) /\ FALSE
SetObs(e, S) == IF Exactly(e.a.r, S) THEN TRUE ELSE PrintT(<<"EXPECTED", i, S>>) /\ FALSE

Pure(e) ==
  CASE e.op = "idof"    -> LET x == IdIn(View(dicts, e.d), e.s) IN Obs(e, <<x, x>>)
    [] e.op = "string"  -> Obs(e, IF e.id = NULLID THEN <<>> ELSE View(dicts, e.d)[e.id + 1])
    [] e.op = "strings" -> Obs(e, [k \in 1..Len(e.ids) |-> View(dicts, e.d)[e.ids[k] + 1]])
    [] e.op = "bytes"   -> Obs(e, View(dicts, e.d)[e.id + 1])
    [] e.op = "count"   -> Obs(e, <<Count(dicts, e.d), Len(dicts[e.d].own)>>)
    [] e.op = "copy"    -> Obs(e, Capped(View(dicts, e.d), e.g))
    [] e.op = "copygen" -> LET v == View(dicts, e.d)
                               at == CHOOSE k \in 1..Len(v) : v[k] = GenStr(e.pre, 0) IN
                           e.a.n = Len(v) /\ Obs(e, <<<<at - 1, 0, e.hi>>>>)
    [] e.op = "each"    -> LET v == Capped(View(dicts, e.d), e.g) IN Obs(e, [k \in 1..Len(v) |-> <<k - 1, v[k]>>])
    [] e.op = "like"    -> SetObs(e, Select(e.d, e.g, LAMBDA s : IF e.si THEN Contains(s, e.p, e.ic) ELSE Like(s, e.p, e.esc, e.ic)))
    [] e.op = "cmp"     -> SetObs(e, Select(e.d, e.g, LAMBDA s : StrCmp(e.o, s, e.p)))
    [] e.op = "regexp"  -> SetObs(e, Select(e.d, e.g, LAMBDA s : Regexp(s, e.ra)))
    [] e.op = "eq"      -> LET q == IF Equal(e.d, e.d2) THEN 1 ELSE 0 IN Obs(e, <<q, 1 - q>>)
    [] e.op = "inter"   -> Obs(e, Translated(e.d, e.d2, -1, -1))
    [] e.op = "trans"   -> LET m == Translated(e.d, e.d2, e.sg, e.dg)
                               miss == {k - 1 : k \in {j \in 1..Len(m) : m[j] = NOID}} IN
                           /\ Obs(e, m) /\ e.a.nf = Cardinality(miss)
                           /\ (Exactly(e.a.cb, IF e.tr THEN miss ELSE {}) \/ (e.dg = 0 /\ e.a.cb = <<>>))
    [] e.op = "getbulkgen" -> /\ e.a.nf = 0
                              /\ LET x == IdIn(View(dicts, e.d), GenStr(e.pre, e.lo)) IN Obs(e, <<<<x, e.hi - e.lo>>>>)
    [] OTHER -> FALSE

PureOps == {"idof", "string", "strings", "bytes", "count", "copy", "copygen", "each", "like", "cmp", "regexp", "eq", "inter",
            "trans", "getbulkgen"}

Union(e) ==
  LET sv == View(dicts, e.d) dv == View(dicts, e.d2)
      m == Translated(e.d, e.d2, -1, -1)
      full == dv \o Appended(dv, sv) IN
  /\ Obs(e, [k \in 1..Len(sv) |-> IdIn(full, sv[k])])
  /\ dicts' = [dicts EXCEPT ![e.d2].own = @ \o Appended(dv, sv)]

Step(e) ==
  IF e.op = "start" THEN e.a.k = "ok" /\ dicts' = <<>>
  ELSE IF e.op = "new" THEN e.a.k = "ok" /\ New(e.d)
  ELSE IF e.op = "nest" THEN e.a.k = "ok" /\ Nest(e.d, e.b, e.g)
  ELSE IF e.op = "add" THEN e.a.k = "ok" /\ GetOrAdd(e.d, e.s, e.a.r)
  ELSE IF e.op = "bulk" /\ e.a.k = "ok" THEN
       Bulk(e.d, e.ss, e.w, e.a.r)
  ELSE IF e.op = "bulk" /\ e.a.k = "err" THEN BulkRefused(e.d, e.ss, e.w)
  ELSE IF e.op = "getbulk" /\ e.a.k = "ok" THEN GetBulk(e.d, e.ss, e.g, e.w, e.a.r, e.a.nf)
  ELSE IF e.op = "bulkgen" /\ e.a.k = "ok" THEN BulkGen(e.d, e.pre, e.lo, e.hi, e.a.r)
  ELSE IF e.op = "union" /\ e.a.k = "ok" THEN Union(e)
  ELSE IF e.op \in {"inter", "union", "trans"} /\ e.a.k = "err" THEN
       e.d = e.d2 /\ UNCHANGED dicts        \* a dictionary cannot be translated to itself
  ELSE e.op \in PureOps /\ e.a.k = "ok" /\ Pure(e) /\ UNCHANGED dicts

TraceInit == Init /\ i = 1
TraceNext == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
TraceSpec == TraceInit /\ [][TraceNext]_<<dicts, i>>

Accepted == /\ PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
