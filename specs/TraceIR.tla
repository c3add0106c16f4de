------------------------------ MODULE TraceIR ------------------------------
(* Accepts what types, expressions and constants may answer.                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
VARIABLES i
T == INSTANCE Types
X == INSTANCE Exprs
N == INSTANCE Consts
D == INSTANCE Instants
Prec(u) == CASE u = "s" -> 0 [] u = "ms" -> 3 [] u = "us" -> 6 [] u = "ns" -> 9
Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE
B(x) == IF x THEN 1 ELSE 0

(* ---- types -------------------------------------------------------------- *)
MkOk(e) ==
  IF ~T!TypeOk(e.t) THEN Say(e.a.ok = 0 /\ e.a.again = 0, "no such type")
  ELSE /\ Say(e.a.ok = 1, "the type")
       /\ Say(e.a.same = 1 /\ e.a.own = 1, "one object per type, owned by its context")
       /\ Say(e.a.d = e.t, <<"parameters", e.t>>)
       /\ Say(e.a.str = T!Name(e.t), <<"name", T!Name(e.t)>>)
       /\ Say(e.a.canon = T!Canon(e.t), <<"canonical", T!Canon(e.t)>>)
       /\ Say(e.a.nn = T!WithNull(e.t, 0) /\ e.a.nu = T!WithNull(e.t, 1), "nullability")
       /\ Say(e.a.f = T!Facts(e.t), <<"facts", T!Facts(e.t)>>)
       /\ IF e.t.k \in {"col", "collist"} THEN TRUE ELSE Say(e.a.back = e.t, "the name reads back as the type")
       /\ IF e.t.k \in {"arrf", "arrv"} THEN Say(e.a.we = [e.t EXCEPT !.e = e.e2], "with another element") ELSE TRUE

(* ---- constants ---------------------------------------------------------- *)
NumKinds == {"bool", "int", "fp", "dec"}
Cut(s, t) == IF t.k = "varchar" /\ Len(s) > t.len THEN SubSeq(s, 1, t.len) ELSE s
TextOf(t, v) ==
  CASE t.k = "bool" -> IF N!Strip(v.d) = <<>> THEN <<102>> ELSE <<116>>
    [] t.k \in {"int", "dec"} -> N!NumText(v.neg, N!Scaled(v, IF t.k = "dec" THEN t.sc ELSE 0), IF t.k = "dec" THEN t.sc ELSE 0)
    [] t.k = "fp" -> N!NumText(v.neg, N!Scaled(v, 6), 6)
    [] t.k = "date" -> D!DateText(v[1])
    [] t.k = "time" -> D!TimeText(v[2])
    [] t.k = "ts" -> D!StampText(v, Prec(t.u))
    [] OTHER -> v
(* What a number n becomes in t: <<>> when t cannot hold it.                   *)
Num(n, t, frombool) ==
  CASE t.k = "bool" -> <<n>>
    [] t.k = "int" -> LET w == N!Whole(n.neg, N!Scaled(n, 0)) IN IF N!Fits(w, t.s) THEN <<w>> ELSE <<>>
    [] t.k = "dec" -> LET w == N!Whole(n.neg, N!Scaled(n, t.sc)) IN IF N!Fits(w, 8) THEN <<[w EXCEPT !.f = t.sc]>> ELSE <<>>
    [] t.k = "fp" -> <<n>>
Same(t, x, y) == IF t.k \in NumKinds THEN N!NumEq(x, y) ELSE x = y
Outcome(e, w) ==
  IF w = <<>> THEN Say(e.a.ok = 0, "refused")
  ELSE Say(IF e.a.ok = 1 THEN Same(e.to, e.a.v, w[1]) ELSE FALSE, <<"value", w[1]>>)
(* A written number read as t.                                                 *)
Read(w, t) ==
  LET n == N!Value(w) IN
  IF t.k = "int" THEN (LET r == Num(n, t, FALSE) IN IF r # <<>> /\ (IF t.n = 1 THEN N!IsMin(r[1], t.s) ELSE FALSE) THEN <<>> ELSE r)
  ELSE Num(n, t, FALSE)
ReadOk(e) ==
  CASE e.how = "num" -> Say(e.text = N!Written(e.w), <<"text", N!Written(e.w)>>) /\ Outcome(e, Read(e.w, e.to))
    [] e.how = "bool" -> Outcome(e, IF N!Upper(e.text) \in N!TrueTexts THEN <<[neg |-> 0, d |-> <<1>>, f |-> 0]>>
                                    ELSE IF N!Upper(e.text) \in N!FalseTexts THEN <<[neg |-> 0, d |-> <<>>, f |-> 0]>> ELSE <<>>)
    [] e.how = "bad" -> Outcome(e, <<>>)
CastOk(e) ==
  IF e.null = 1 THEN Say(e.a.ok = 1 /\ e.a.null = 1 /\ e.a.t = e.to, "NULL of the new type")
  ELSE /\ Say(IF e.a.ok = 1 THEN e.a.t = T!WithNull(e.to, 0) /\ e.a.null = 0 ELSE TRUE, "of the new type, not NULL")
       /\ CASE e.from.k \in NumKinds /\ e.to.k \in NumKinds -> Outcome(e, Num(e.v, e.to, e.from.k = "bool"))
            [] e.from.k \in T!Strings /\ e.to.k \in T!Strings -> Outcome(e, <<Cut(e.v, e.to)>>)
            [] e.from.k \in T!Strings -> ReadOk(e)
            [] e.to.k \in T!Strings -> Outcome(e, <<Cut(TextOf(e.from, e.v), e.to)>>)
            [] e.from.k \in {"ts", "date"} /\ e.to.k = "date" -> Outcome(e, <<<<e.v[1], 0, 0>>>>)
            [] e.from.k \in {"ts", "date"} /\ e.to.k = "ts" -> Outcome(e, <<<<e.v[1], e.v[2], e.v[3] - (e.v[3] % D!P10(9 - Prec(e.to.u)))>>>>)

Step(e) ==
  /\ Say(e.a.k = "ok", "ok")
  /\ CASE e.op = "start" -> TRUE
       [] e.op = "mk" -> MkOk(e)
       [] e.op = "teq" -> LET w == B(e.x = e.y) IN Say(e.a.eq = w /\ e.a.eqr = w /\ e.a.op = w, <<"equal", w>>)
       [] e.op = "copy" -> Say(e.a.ok = 1, "a copy") /\ Say(e.a.d = e.t /\ e.a.own = 1 /\ e.a.eq = 1, "the same type in the other context")
       [] e.op = "tparse" ->
            IF e.bad = 1 THEN Say(e.a.ok = 0, "no type")
            ELSE /\ Say(T!Written(e.t, e.o) /\ e.ltext = T!Spell(e.t, e.o), <<"spelling", T!Spell(e.t, e.o)>>)
                 /\ IF T!TypeOk(e.t) THEN Say(e.a.ok = 1, "a type") /\ Say(e.a.d = e.t, <<"type", e.t>>) ELSE Say(e.a.ok = 0, "no type")
       [] e.op = "ecmp" ->
            LET w == B(X!Same(e.x, e.y)) IN
            /\ Say(e.a.eq = w /\ e.a.eqr = w, <<"equal", w>>)
            /\ Say(e.a.self = 1 /\ e.a.h2 = 1, "equal to itself")
            /\ Say(w = 0 \/ e.a.h = 1, "equal expressions hash alike")
            /\ Say(e.a.sa = e.x, "the parts of the expression")
       [] e.op = "erw" ->
            /\ Say(e.a.r = X!Subst(e.e, e.map), <<"substituted", X!Subst(e.e, e.map)>>)
            /\ Say(e.a.kept = 1, "the original is kept")
            /\ Say(e.a.same = 1, "nothing to replace, nothing new")
            /\ Say(e.a.again = 1, "the same again")
            /\ Say({<<e.a.cols[k][1], e.a.cols[k][2]>> : k \in 1..Len(e.a.cols)} = X!Columns(e.e), <<"columns", X!Columns(e.e)>>)
       [] e.op = "etype" -> Say(e.a.r = (IF "t" \in DOMAIN e.e THEN [e.e EXCEPT !.t = e.to] ELSE e.e) /\ e.a.rt = e.to, "only the type changes")
       [] e.op = "ccast" -> CastOk(e)
       [] e.op = "cint" -> Say(e.a.ok = 1 /\ e.a.t = T!WithNull(e.to, 0) /\ e.a.null = 0, "a constant") /\ Outcome(e, Num(e.v, e.to, FALSE))
       [] e.op = "dread" -> ReadOk(e)
       [] e.op = "dprint" -> Say(e.a.text = TextOf(e.t, e.v), <<"text", TextOf(e.t, e.v)>>)

Init == i = 1
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == Init /\ [][Next]_i
Accepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
