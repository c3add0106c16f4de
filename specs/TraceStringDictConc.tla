------------------------ MODULE TraceStringDictConc ------------------------
(* Traces with concurrent histories: TLC searches for an order of the          *)
(* overlapping operations that respects real time and that the dictionary      *)
(* allows (linearizability).  A read of a nested dictionary looks into its     *)
(* base, so the order is one over the whole family.                            *)
EXTENDS TraceStringDict
VARIABLE done       \* operations of the current history already placed

Hist(e) == 1..Len(e.h)

Op(o) ==
  IF o.op = "idof1" THEN o.a.k = "ok" /\ o.a.r = IdIn(View(dicts, o.d), o.s) /\ UNCHANGED dicts
  ELSE IF o.op = "count1" THEN o.a.k = "ok" /\ o.a.r = Count(dicts, o.d) /\ UNCHANGED dicts
  ELSE Step(o)

Place(e) == \E k \in Hist(e) \ done :
   /\ \A j \in Hist(e) \ done : j # k => e.h[k].t0 < e.h[j].t1
   /\ Op(e.h[k])
   /\ done' = done \cup {k}
   /\ i' = i

Reached(n) == IF TLCGet(7) < n THEN TLCSet(7, n) ELSE TRUE

ConcInit == TraceInit /\ done = {} /\ TLCSet(7, 0)
ConcNext ==
  /\ i <= Len(Trace)
  /\ IF Trace[i].op = "conc"
     THEN /\ Trace[i].k = "hist"
          /\ IF done = Hist(Trace[i]) THEN i' = i + 1 /\ done' = {} /\ UNCHANGED dicts /\ Reached(i) ELSE Place(Trace[i])
     ELSE Step(Trace[i]) /\ i' = i + 1 /\ done' = {} /\ Reached(i)
ConcSpec == ConcInit /\ [][ConcNext]_<<dicts, i, done>>

ConcAccepted == /\ PrintT(<<"PREFIX", TLCGet(7), Len(Trace)>>)
                /\ TLCGet(7) = Len(Trace)
=============================================================================
