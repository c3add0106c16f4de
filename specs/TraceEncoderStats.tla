------------------------- MODULE TraceEncoderStats -------------------------
(* Accepts the traces of the real encoders that EncoderStats allows.           *)
EXTENDS EncoderStats, Json, IOUtils, TLC
VARIABLES i, encs
Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
B(x) == x = 1

(* Reported statistics [mn, mx, nulls]: no bounds are kept for strings; an     *)
(* array encoder says nothing before it was given something; nothing seen is   *)
(* reported as bounds that no value is between.                                *)
Shows(st, s, c) ==
  /\ B(st[3]) = s.nulls
  /\ IF c = "s" \/ (c = "a" /\ s.fresh) THEN TRUE
     ELSE IF s.seen = {} THEN Lt(st[2], st[1])
     ELSE st[1] = MinV(s.seen) /\ st[2] = MaxV(s.seen)
ShowAll(sts, s, c) == s.lost \/ Say(\A j \in 1..Len(sts) : Shows(sts[j], s, c), <<s.seen, s.nulls, sts>>)

Upd(x, s2) == encs' = Put(encs, x, [encs[x] EXCEPT !.s = s2])
Ok(e) == Say(e.a.k = "ok", "ok")
T(x) == TypeOf(encs[x].t)
Same(s, mn, mx, nulls) == ~s.fresh /\ s.seen = {mn, mx} /\ s.nulls = nulls

Step(e) ==
  CASE e.op = "start" -> encs' = <<>> /\ Ok(e)
    [] e.op = "new" -> encs' = Put(encs, e.e, [t |-> e.t, c |-> e.c, s |-> Zero]) /\ Ok(e)
    [] e.op = "upd" ->
        (LET c == encs[e.e].c s == encs[e.e].s IN
         CASE c = "s" -> Ok(e) /\ Upd(e.e, Strs(s, e.vals))
           [] c = "a" -> Ok(e) /\ Upd(e.e, Arrays(s, T(e.e), e.vals))
           [] OTHER -> IF Refused(T(e.e), e.vals)
                       THEN Say(e.a.k = "refused", "refused") /\ Upd(e.e, [s EXCEPT !.lost = TRUE])
                       ELSE Ok(e) /\ Upd(e.e, Raw(s, T(e.e), e.vals)))
    [] e.op = "sca" -> Ok(e) /\ Upd(e.e, Scalar(encs[e.e].s, e.v, B(e.null)))
    [] e.op = "enc" -> Ok(e) /\ Upd(e.e, Encoded(encs[e.e].s, T(e.e), e.vals, B(e.arr)))
    [] e.op = "red" -> Ok(e) /\ Upd(e.e, Join(encs[e.e].s, encs[e.f].s))
    [] e.op = "cpy" -> Ok(e) /\ Upd(e.e, Copy(encs[e.e].s, encs[e.f].s))
    [] e.op = "wr" -> Ok(e) /\ Upd(e.f, Copy(encs[e.f].s, encs[e.e].s))
    [] e.op = "rst" -> Ok(e) /\ Upd(e.e, Reset(encs[e.e].s))
    [] e.op = "set" ->
        (LET s == encs[e.e].s c == encs[e.e].c IN
         /\ Ok(e)
         /\ IF s.lost THEN TRUE
            ELSE IF c = "s" THEN Say(e.a.r = IF s.nulls = B(e.nulls) THEN 0 ELSE 1, <<"changed", s>>)
            ELSE IF c = "a" /\ s.seen = {} THEN Say(e.a.r = 1, <<"changed", s>>)
            ELSE Say(e.a.r = IF Same(s, e.mn, e.mx, B(e.nulls)) THEN 0 ELSE 1, <<"changed", s>>)
         /\ IF c = "s" THEN Upd(e.e, [s EXCEPT !.nulls = B(e.nulls)])
            ELSE Upd(e.e, Set(s, e.mn, e.mx, B(e.nulls))))
    [] e.op = "setn" -> Ok(e) /\ Upd(e.e, [encs[e.e].s EXCEPT !.n = e.n, !.bytes = e.bytes])
    [] e.op = "get" -> /\ Ok(e)
                       /\ ShowAll(e.a.st, encs[e.e].s, encs[e.e].c)
                       /\ Say(e.a.n = encs[e.e].s.n /\ e.a.bytes = encs[e.e].s.bytes, <<encs[e.e].s.n, encs[e.e].s.bytes>>)
                       /\ UNCHANGED encs
    [] e.op = "mrg" -> /\ Ok(e)
                       /\ IF encs[e.e].c = "a" /\ (encs[e.e].s.fresh \/ encs[e.f].s.fresh \/ encs[e.e].s.seen = {} \/ encs[e.f].s.seen = {})
                          THEN TRUE
                          ELSE ShowAll(e.a.st, Join(encs[e.e].s, encs[e.f].s), encs[e.e].c)
                       /\ UNCHANGED encs
    [] e.op = "eq" ->
        (LET x == encs[e.e] y == encs[e.f] IN
         /\ Ok(e)
         /\ IF x.s.lost \/ y.s.lost \/ (x.c = "a" /\ (x.s.fresh \/ y.s.fresh)) THEN TRUE
            ELSE Say(e.a.r = IF /\ x.t = y.t /\ x.c = y.c /\ x.s.n = y.s.n /\ x.s.bytes = y.s.bytes
                                /\ x.s.seen = y.s.seen /\ x.s.nulls = y.s.nulls THEN 1 ELSE 0, <<x, y>>)
         /\ UNCHANGED encs)
    [] e.op = "lazy" -> /\ Ok(e)
                        /\ Say(e.a.before = 0 /\ e.a.calls = (IF e.reads > 0 THEN 1 ELSE 0) /\ e.a.after = e.a.calls, "computed once, when first read")
                        /\ ShowAll(e.a.st, encs[e.e].s, encs[e.e].c)
                        /\ UNCHANGED encs
    [] e.op = "fit" -> Ok(e) /\ Say(e.a.r = FitCount(e.lens, e.limit), FitCount(e.lens, e.limit)) /\ UNCHANGED encs

Init == i = 1 /\ encs = <<>>
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == Init /\ [][Next]_<<i, encs>>
Accepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
