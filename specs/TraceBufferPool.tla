--------------------------- MODULE TraceBufferPool ---------------------------
(* Accepts exactly the traces of the real buffer pools that BufferPool allows. *)
(* One pool over a storage, or a pool over a pool over a storage: pools[1] is  *)
(* the one asked, pools[2], if there, the one below.                           *)
EXTENDS BufferPool, Json, IOUtils, FiniteSetsExt
VARIABLES i, pools, par, hs, tick, nalloc, page
vars == <<i, pools, par, hs, tick, nalloc, page>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Say(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE
Obs(e, exp) == Say(e.a.r = exp, exp)
Pins(e, n) == Say(e.a.p = n, <<"pins", n>>)

S(e, l) == e.a.d[l].slabs
Cut(slabs) == [x \in 1..Len(slabs) |-> [y \in 1..Len(slabs[x]) |->
                [s |-> slabs[x][y].s, n |-> slabs[x][y].n, u |-> slabs[x][y].u, k |-> slabs[x][y].k]]]
Pg(n) == Ceil(n, page)
Drop(ch, X) == [x \in DOMAIN ch \ X |-> ch[x]]
Put(ch, k, r) == [x \in DOMAIN ch \cup {k} |-> IF x = k THEN r ELSE ch[x]]
Chunk(d, n, t) == [data |-> d, pins |-> n, rec |-> t]

(* The pool after a step: the layout it reports, the chunks that are left.     *)
Next1(p, s2, ch) == [p EXCEPT !.slabs = Cut(s2), !.ch = ch]
Rest(p, s2) == Drop(p.ch, Gone(p, s2))

(* What is to be reported about a pool.                                        *)
Sum(f(_), slabs) == FoldLeft(LAMBDA acc, segs : acc + FoldLeft(LAMBDA b, g : b + f(g), 0, segs), 0, slabs)
UsedPages(slabs) == Sum(LAMBDA g : IF g.u THEN g.n ELSE 0, slabs)
Reported(d, p, pg) ==
  /\ Say(WellFormed(d.slabs, p.ch, p.max, p.pool), <<"layout", p.ch>>)
  /\ Say(d.alloc = Pages(d.slabs) /\ d.allocb = pg * d.alloc, <<"allocated", Pages(d.slabs)>>)
  /\ Say(d.inuse = pg * UsedPages(d.slabs) /\ d.rep = d.inuse, <<"in use", UsedPages(d.slabs)>>)
  /\ Say(d.max = pg * p.pool, <<"max", p.pool>>)
  /\ Say(d.nch = Cardinality(DOMAIN p.ch), <<"chunks", DOMAIN p.ch>>)
  /\ \A x \in 1..Len(d.slabs) : \A y \in 1..Len(d.slabs[x]) :
       LET g == d.slabs[x][y] IN g.u =>
         Say(/\ g.p = p.ch[g.k].pins /\ g.o = g.s /\ g.z = Len(p.ch[g.k].data) /\ pg * g.n >= g.z, <<"segment", g, p.ch[g.k]>>)
  /\ \A k \in DOMAIN p.ch \ KeysOf(U(d.slabs)) : Say(p.ch[k].data = <<>>, <<"no room for", k>>)

More(data, v, n) == [j \in 1..n |-> IF j <= Len(data) THEN data[j] ELSE (v + j - 1) % 100]

(* The pool below is asked for n bytes of k.                                   *)
Below(m, s2, k, n) ==
  IF k \in DOMAIN m.ch THEN
    IF Len(m.ch[k].data) >= n THEN Same(m, s2)
    ELSE Grow([m EXCEPT !.ch[k].pins = @ + 1], s2, k, Pg(n))
  ELSE Place(m, s2, k, Pg(n))
BelowAfter(m, s2, k, n) ==
  LET old == IF k \in DOMAIN m.ch THEN m.ch[k] ELSE Chunk(<<>>, 0, tick) IN
  IF Len(old.data) >= n /\ k \in DOMAIN m.ch THEN Next1(m, s2, m.ch)
  ELSE Next1(m, s2, Put(Rest(m, s2), k, [old EXCEPT !.data = More(old.data, par[k].v, n)]))

Two == Len(pools) = 2
SetTop(e, p2) == pools' = (IF Two THEN <<p2, pools[2]>> ELSE <<p2>>) /\ (Two => Say(Same(pools[2], S(e, 2)), "the pool below is left alone"))
SetBoth(e, p2, k, n) ==
  IF Two THEN /\ Say(Below(pools[2], S(e, 2), k, n), <<"pool below", k, n, pools[2]>>)
              /\ pools' = <<p2, BelowAfter(pools[2], S(e, 2), k, n)>>
  ELSE pools' = <<p2>>
Handle(e, k) == hs' = Put(hs, e.h, [key |-> k, data |-> <<>>, zc |-> FALSE, pins |-> 0])

Get(e) ==
  LET k == e.key  p == pools[1]  s2 == S(e, 1)
      n == IF e.n = 0 THEN par[k].n ELSE e.n
      hit == k \in DOMAIN p.ch IN
  IF hit /\ (e.n = 0 \/ Len(p.ch[k].data) >= e.n) THEN
    /\ Say(e.a.k = "ok" /\ Same(p, s2), "chunk is there")
    /\ Obs(e, p.ch[k].data) /\ Pins(e, p.ch[k].pins + 1) /\ Handle(e, k)
    /\ SetTop(e, Next1(p, s2, Put(p.ch, k, [p.ch[k] EXCEPT !.pins = @ + 1, !.rec = tick])))
    /\ UNCHANGED par
  ELSE IF ~hit /\ par[k].zc THEN
    /\ Say(e.a.k = "ok" /\ Same(p, s2), "no copy is made")
    /\ Obs(e, Pat(par[k].v, par[k].n)) /\ Pins(e, 1)
    /\ hs' = Put(hs, e.h, [key |-> k, data |-> Pat(par[k].v, par[k].n), zc |-> TRUE, pins |-> 1])
    /\ SetTop(e, Next1(p, s2, p.ch)) /\ UNCHANGED par
  ELSE LET q == IF hit THEN [p EXCEPT !.ch[k].pins = @ + 1, !.ch[k].rec = tick] ELSE p IN
    IF e.a.k = "ok" THEN
      /\ Say(par[k].fail = 0, "the storage fails")
      /\ Say(IF hit THEN Grow(q, s2, k, Pg(n)) ELSE Place(q, s2, k, Pg(n)), <<"placement", k, Pg(n), p>>)
      /\ LET old == IF hit THEN q.ch[k] ELSE Chunk(<<>>, 1, tick)
             src == IF Two THEN BelowAfter(pools[2], S(e, 2), k, n).ch[k].data ELSE Pat(par[k].v, n)
             new == [old EXCEPT !.data = [j \in 1..n |-> IF j <= Len(old.data) THEN old.data[j] ELSE src[j]]] IN
         /\ Obs(e, new.data) /\ Pins(e, new.pins)
         /\ SetBoth(e, Next1(p, s2, Put(Rest(p, s2), k, new)), k, n)
      /\ Handle(e, k) /\ UNCHANGED par
    ELSE IF e.a.k = "err" THEN          \* the storage failed: nothing is left behind
      /\ Say(~Two /\ par[k].fail > 0, "no storage failure")
      /\ Say(IF hit \/ e.n = 0 THEN Same(p, s2) ELSE PlaceDropped(p, s2, k, Pg(n)), <<"nothing left behind", p>>)
      /\ pools' = <<Next1(p, s2, IF hit THEN Put(p.ch, k, [p.ch[k] EXCEPT !.rec = tick]) ELSE Rest(p, s2))>>
      /\ par' = [par EXCEPT ![k].fail = @ - 1] /\ UNCHANGED hs
    ELSE /\ Say(e.a.k = "oom", "an answer")
         /\ LET mid == Two /\ k \notin DOMAIN pools[2].ch /\ Same(pools[2], S(e, 2)) /\ NoRoom(pools[2], k, Pg(n)) IN
            IF mid /\ ~(IF hit THEN NoRoom(q, k, Pg(n)) ELSE NoRoom(p, k, Pg(n))) THEN   \* refused below
              /\ Say(IF hit THEN Same(p, s2) ELSE PlaceDropped(p, s2, k, Pg(n)), "refused below")
              /\ pools' = <<Next1(p, s2, IF hit THEN Put(p.ch, k, [p.ch[k] EXCEPT !.rec = tick]) ELSE Rest(p, s2)), pools[2]>>
            ELSE LET keep == Next1(p, s2, IF hit THEN Put(p.ch, k, [p.ch[k] EXCEPT !.rec = tick]) ELSE p.ch) IN
              /\ Say(NoRoom(q, k, Pg(n)) /\ Same(p, s2), <<"there is room for", Pg(n), p>>)
              /\ IF Two /\ (hit \/ e.n = 0) THEN SetBoth(e, keep, k, n) ELSE SetTop(e, keep)
         /\ UNCHANGED <<hs, par>>

Make(e, k) ==
  LET p == pools[1]  s2 == S(e, 1) IN
  IF e.a.k = "ok" THEN
    /\ Say(IF e.n = 0 THEN Same(p, s2) ELSE Place(p, s2, k, Pg(e.n)), <<"placement", k, Pg(e.n), p>>)
    /\ Pins(e, 1) /\ Handle(e, k) /\ SetTop(e, Next1(p, s2, Put(Rest(p, s2), k, Chunk(<<>>, 1, tick))))
  ELSE /\ Say(e.a.k = "oom" /\ e.n > 0 /\ NoRoom(p, k, Pg(e.n)) /\ Same(p, s2), <<"there is room for", Pg(e.n), p>>)
       /\ SetTop(e, Next1(p, s2, p.ch)) /\ UNCHANGED hs

(* growing a chunk in the hands of its user *)
Extend(e, upto, data) ==
  LET h == hs[e.h]  k == h.key  p == pools[1]  s2 == S(e, 1)
      was == U(p.slabs)
      moved == k \in KeysOf(U(s2)) /\ (k \notin KeysOf(was) \/ SegOf(U(s2), k).sl # SegOf(was, k).sl \/ SegOf(U(s2), k).s # SegOf(was, k).s) IN
  IF e.a.k = "ok" THEN
    /\ Say(Grow(p, s2, k, Pg(upto)), <<"growth", k, Pg(upto), p>>)
    /\ Obs(e, data)
    /\ SetTop(e, Next1(p, s2, Put(Rest(p, s2), k, [p.ch[k] EXCEPT !.data = data, !.rec = IF moved THEN tick ELSE @])))
    /\ UNCHANGED hs
  ELSE /\ Say(e.a.k = "oom" /\ NoRoom(p, k, Pg(upto)) /\ Same(p, s2), <<"there is room for", Pg(upto), p>>)
       /\ SetTop(e, Next1(p, s2, p.ch)) /\ UNCHANGED hs

RemoveKeys(e, X) ==
  LET p == pools[1]  s2 == S(e, 1) IN
  /\ Say(e.a.k = "ok" /\ Len(s2) = Len(p.slabs) /\ U(s2) = {u \in U(p.slabs) : u.k \notin X}, <<"removed", X>>)
  /\ SetTop(e, Next1(p, s2, Drop(p.ch, X))) /\ UNCHANGED hs

Clear(e) ==
  LET p == pools[1]  s2 == S(e, 1)
      sized == KeysOf(U(p.slabs)) IN
  IF \E k \in sized : p.ch[k].pins > 0 THEN RemoveKeys(e, {k \in sized : p.ch[k].pins = 0})
  ELSE /\ Say(e.a.k = "ok" /\ s2 = <<>>, "everything is released")
       /\ hs' = [h \in DOMAIN hs |-> IF hs[h].zc \/ hs[h].key \notin DOMAIN p.ch THEN hs[h]
                                     ELSE [hs[h] EXCEPT !.zc = TRUE, !.data = <<>>, !.pins = p.ch[hs[h].key].pins]]
       /\ SetTop(e, Next1(p, s2, <<>>))

Pin(e, d) ==
  LET h == hs[e.h]  p == pools[1] IN
  /\ Say(e.a.k = "ok" /\ Same(p, S(e, 1)), "pin")
  /\ IF h.zc THEN /\ Pins(e, h.pins + d) /\ hs' = [hs EXCEPT ![e.h].pins = @ + d] /\ SetTop(e, p)
     ELSE /\ Pins(e, p.ch[h.key].pins + d) /\ UNCHANGED hs
          /\ SetTop(e, [p EXCEPT !.ch[h.key].pins = @ + d])

Data(h) == IF hs[h].zc THEN hs[h].data ELSE pools[1].ch[hs[h].key].data

(* Many users at once: whatever they did, nobody saw wrong data or another's   *)
(* chunk, each chunk was fetched by one user at a time, and afterwards nothing *)
(* is pinned but what was before, every chunk still there is complete.         *)
Conc(e) ==
  LET p == pools[1]  s2 == S(e, 1)  us == U(s2)
      held == {k \in DOMAIN p.ch : p.ch[k].pins > 0}
      faults == FoldSet(LAMBDA k, acc : acc + par[k].fail, 0, DOMAIN par) IN
  /\ Say(e.a.k = "ok" /\ e.a.c.bad = 0, "right data")
  /\ Say(e.a.c.other = 0 /\ e.a.c.unpinned = 0, "pinned chunks, no other failure")
  /\ Say(e.a.c.mf <= 1, "one fetch of a chunk at a time")
  /\ Say(e.a.c.failed <= faults, "failures of the storage only")
  /\ Say(e.roomy > 0 => e.a.c.oom = 0, "there is room")
  /\ Say(\A k \in held : k \in KeysOf(U(p.slabs)) => SegOf(U(p.slabs), k) \in us, <<"pinned chunks stay", held>>)
  /\ Say(\A u \in us : u.k \in DOMAIN p.ch \/ u.k \in DOMAIN par, "only chunks asked for")
  /\ LET size(k) == LET w == CHOOSE w \in UNION {{x} \X (1..Len(s2[x])) : x \in 1..Len(s2)} : s2[w[1]][w[2]].u /\ s2[w[1]][w[2]].k = k
                    IN s2[w[1]][w[2]].z
         keep(k) == k \in DOMAIN p.ch /\ (k \in held \/ ~(k \in DOMAIN par))
         left == KeysOf(us) \cup {k \in DOMAIN p.ch : k \notin KeysOf(U(p.slabs)) /\ (p.ch[k].pins > 0 \/ e.dels = 0)} IN
     pools' = <<[Next1(p, s2, [k \in left |-> IF keep(k) THEN p.ch[k] ELSE Chunk(Pat(par[k].v, size(k)), 0, tick)]) EXCEPT !.lru = FALSE]>>
  /\ Say(\A k \in DOMAIN pools'[1].ch : k \notin DOMAIN p.ch => Len(pools'[1].ch[k].data) = par[k].n, "complete chunks")
  /\ UNCHANGED hs

NewPool(e, size) == [slabs |-> <<>>, ch |-> <<>>, max |-> e.max, pool |-> size, odd |-> e.tier > 0, lru |-> TRUE]

Step(e) ==
  IF e.op = "start" THEN
    /\ e.a.k = "ok" /\ page' = e.page /\ par' = <<>> /\ hs' = <<>> /\ nalloc' = 0
    /\ pools' = IF e.levels = 2 THEN <<NewPool(e, e.pool), [NewPool(e, e.pool2) EXCEPT !.lru = FALSE]>>
                ELSE <<NewPool(e, e.pool + e.tier)>>
  ELSE /\ UNCHANGED page
       /\ nalloc' = IF e.op = "alloc" THEN nalloc + 1 ELSE IF e.op = "conc" THEN nalloc + e.a.c.na ELSE nalloc
       /\ IF e.op = "get" THEN Get(e)
          ELSE IF e.op = "conc" THEN Conc(e) /\ par' = [k \in DOMAIN par |-> [par[k] EXCEPT !.fail = 0]]
          ELSE IF e.op = "pset" THEN par' = Put(par, e.key, [v |-> e.v, n |-> e.n, zc |-> e.zc > 0, fail |-> 0]) /\ UNCHANGED <<pools, hs>>
          ELSE IF e.op = "pfail" THEN par' = [par EXCEPT ![e.key].fail = e.times] /\ UNCHANGED <<pools, hs>>
          ELSE /\ UNCHANGED par
               /\ IF e.op = "sfail" THEN pools' = [pools EXCEPT ![1].odd = TRUE] /\ UNCHANGED hs
                  ELSE IF e.op = "create" THEN Make(e, e.key)
                  ELSE IF e.op = "alloc" THEN Make(e, <<-1, nalloc>>)
                  ELSE IF e.op = "del" THEN RemoveKeys(e, {e.key})
                  ELSE IF e.op = "free" THEN RemoveKeys(e, {hs[e.h].key})
                  ELSE IF e.op = "delp" THEN RemoveKeys(e, {k \in DOMAIN pools[1].ch : IsPre(e.key, k) /\ pools[1].ch[k].pins = 0})
                  ELSE IF e.op = "clear" THEN Clear(e)
                  ELSE IF e.op = "pin" THEN Pin(e, 1)
                  ELSE IF e.op = "unpin" THEN Pin(e, -1)
                  ELSE IF e.op = "has" THEN Obs(e, e.key \in DOMAIN pools[1].ch) /\ UNCHANGED hs /\ SetTop(e, pools[1])
                  ELSE IF e.op = "read" THEN Say(e.a.k = "ok" /\ Same(pools[1], S(e, 1)), "read") /\ Obs(e, Data(e.h)) /\ UNCHANGED hs /\ SetTop(e, pools[1])
                  ELSE IF e.op = "reserve" THEN Extend(e, e.n, Data(e.h))
                  ELSE IF e.op = "write" THEN Extend(e, e.off + e.n, Overlay(Data(e.h), e.off, Pat(e.v, e.n)))
                  ELSE IF e.op = "append" THEN Extend(e, Len(Data(e.h)) + e.n, Overlay(Data(e.h), Len(Data(e.h)), Pat(e.v, e.n)))
                  ELSE FALSE

TraceInit == i = 1 /\ pools = <<>> /\ par = <<>> /\ hs = <<>> /\ tick = 1 /\ nalloc = 0 /\ page = 1
TraceNext == /\ i <= Len(Trace) /\ i' = i + 1 /\ tick' = tick + 1
             /\ Say(Trace[i].a.k \in {"ok", "oom", "err"}, "an answer") /\ Step(Trace[i])
             /\ \A l \in 1..Len(pools') : Reported(Trace[i].a.d[l], pools'[l], page')
TraceSpec == TraceInit /\ [][TraceNext]_vars

Accepted == /\ PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
