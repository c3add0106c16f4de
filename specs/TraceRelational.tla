--------------------------- MODULE TraceRelational ---------------------------
(* Accepts the histories of the real engine in which every query is answered   *)
(* as the specification says, on the tables as they are at that time.          *)
EXTENDS Relational, Json, IOUtils
VARIABLES i, tabs, kept

Trace == ndJsonDeserialize(IOEnv.TRACE)
Empty == [x \in {} |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Expect(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE

(* The engine may refuse a join of three and more inputs that it finds no hash *)
(* table for; it never answers it wrong.                                       *)
RECURSIVE Joins(_)
Joins(q) == CASE q.n = "join" -> 1 + Joins(q.l) + Joins(q.r)
              [] q.n \in {"scan", "res"} -> 0
              [] OTHER -> Joins(q.in)

Answered(q, a) ==
  IF a.k = "refused" THEN Expect(Joins(q) >= 2, "an answer") ELSE
  /\ Expect(a.k = "rows" /\ a.seq = 1 /\ a.n = Len(a.rows), "a consistent answer")
  /\ Expect(Right(q, a.rows, tabs, kept), <<Eval(q, tabs, kept)>>)

Init == i = 1 /\ tabs = Empty /\ kept = Empty
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     CASE e.op = "start" -> e.a.k = "ok" /\ tabs' = Empty /\ kept' = Empty
       [] e.op = "create" -> e.a.k = "ok" /\ tabs' = Put(tabs, e.t, <<>>) /\ UNCHANGED kept
       [] e.op = "append" -> e.a.k = "ok" /\ tabs' = Put(tabs, e.t, tabs[e.t] \o e.rows) /\ UNCHANGED kept
       [] e.op = "drop" -> e.a.k = "ok" /\ tabs' = Del(tabs, e.t) /\ UNCHANGED kept
       [] e.op \in {"cfg", "clear"} -> e.a.k = "ok" /\ UNCHANGED <<tabs, kept>>
       [] e.op = "query" ->
            /\ Answered(e.q, e.a)
            /\ kept' = IF e.keep = "" THEN kept ELSE Put(kept, e.keep, e.a.rows)
            /\ UNCHANGED tabs
       [] e.op = "par" ->
            /\ e.a.k = "many" /\ Len(e.a.rs) = Len(e.qs)
            /\ \A k \in 1..Len(e.qs) : Answered(e.qs[k], e.a.rs[k])
            /\ UNCHANGED <<tabs, kept>>
       [] e.op = "read" ->
            /\ e.a.k = "rows" /\ e.a.seq = 1 /\ e.a.n = Len(e.a.rows)
            /\ Expect(e.a.rows = kept[e.r], <<kept[e.r]>>)
            /\ UNCHANGED <<tabs, kept>>
       [] e.op \in {"head", "tail"} ->
            /\ e.a.k = "rows" /\ e.a.seq = 1 /\ e.a.n = Len(e.a.rows)
            /\ LET r == kept[e.r]
                   n == IF e.c > Len(r) THEN Len(r) ELSE e.c
                   w == IF e.op = "head" THEN SubSeq(r, 1, n) ELSE SubSeq(r, Len(r) - n + 1, Len(r)) IN
               /\ Expect(e.a.rows = w, <<w>>)
               /\ kept' = IF e.keep = "" THEN kept ELSE Put(kept, e.keep, w)
            /\ UNCHANGED tabs
       [] e.op = "release" -> e.a.k = "ok" /\ kept' = Del(kept, e.r) /\ UNCHANGED tabs
       [] OTHER -> FALSE
TraceSpec == Init /\ [][Next]_<<i, tabs, kept>>
Accepted == /\ PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
