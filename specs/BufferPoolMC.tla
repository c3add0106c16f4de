---------------------------- MODULE BufferPoolMC ----------------------------
(* The allocator's algorithm, explored exhaustively: first fit, then a new    *)
(* slab, then the cheapest eviction; growth in place or by moving; merging of *)
(* freed segments.  Each step has to be one that BufferPool allows.           *)
EXTENDS BufferPool
CONSTANTS Keys, MaxPages, MaxSlab, PoolPages, MaxTick
VARIABLES p, tick

KeySet == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
K == IF Keys = 3 THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>} ELSE KeySet

Free(s, n) == [s |-> s, n |-> n, u |-> FALSE, k |-> <<>>]
UsedSeg(s, n, k) == [s |-> s, n |-> n, u |-> TRUE, k |-> k]

(* put k in free segment j of a slab *)
Fill(segs, j, n, k) ==
  SubSeq(segs, 1, j - 1) \o <<UsedSeg(segs[j].s, n, k)>>
    \o (IF segs[j].n > n THEN <<Free(segs[j].s + n, segs[j].n - n)>> ELSE <<>>) \o SubSeq(segs, j + 1, Len(segs))
FitsAt(slabs, n) == {w \in UNION {{i} \X (1..Len(slabs[i])) : i \in 1..Len(slabs)} : ~slabs[w[1]][w[2]].u /\ slabs[w[1]][w[2]].n >= n}
First(S) == CHOOSE w \in S : \A x \in S : w[1] < x[1] \/ (w[1] = x[1] /\ w[2] <= x[2])

(* eviction from segment j on *)
RECURSIVE Run(_, _, _, _)
Run(segs, j, acc, n) ==        \* last segment of the run, or 0
  IF acc >= n THEN j - 1
  ELSE IF j > Len(segs) THEN 0
  ELSE IF segs[j].u /\ p.ch[segs[j].k].pins > 0 THEN 0
  ELSE Run(segs, j + 1, acc + segs[j].n, n)
Cost(segs, a, b) == LET S == {p.ch[segs[x].k].rec : x \in {y \in a..b : segs[y].u}} IN IF S = {} THEN 0 ELSE MaxOf(S)
Cand(n) == {w \in UNION {{i} \X (1..Len(p.slabs[i])) : i \in 1..Len(p.slabs)} : Run(p.slabs[w[1]], w[2], 0, n) # 0}
CostAt(w, n) == Cost(p.slabs[w[1]], w[2], Run(p.slabs[w[1]], w[2], 0, n))
Best(n) == First({w \in Cand(n) : \A x \in Cand(n) : CostAt(w, n) <= CostAt(x, n)})
EvictAt(segs, a, b, n, k) ==
  LET s == segs[a].s
      tot == FoldLeft(LAMBDA acc, g : acc + g.n, 0, SubSeq(segs, a, b))
      rest == SubSeq(segs, b + 1, Len(segs)) IN
  SubSeq(segs, 1, a - 1) \o <<UsedSeg(s, n, k)>> \o
    (IF tot = n THEN rest
     ELSE IF rest # <<>> /\ ~rest[1].u THEN <<Free(s + n, rest[1].n + tot - n)>> \o Tail(rest)
     ELSE <<Free(s + n, tot - n)>> \o rest)

Find(k, n) ==      \* the new slabs, or <<>> if there is no room
  IF FitsAt(p.slabs, n) # {} THEN LET w == First(FitsAt(p.slabs, n)) IN [p.slabs EXCEPT ![w[1]] = Fill(@, w[2], n, k)]
  ELSE IF CanSlab(p, n) THEN Append(p.slabs, Fill(<<Free(0, MinI(p.max, Left(p)))>>, 1, n, k))
  ELSE IF Cand(n) # {} THEN LET w == Best(n) IN [p.slabs EXCEPT ![w[1]] = EvictAt(@, w[2], Run(@, w[2], 0, n), n, k)]
  ELSE <<>>

(* free the segment j and merge it with its free neighbours *)
Release(segs, j) ==
  LET a == IF j > 1 /\ ~segs[j - 1].u THEN j - 1 ELSE j
      b == IF j < Len(segs) /\ ~segs[j + 1].u THEN j + 1 ELSE j
      tot == FoldLeft(LAMBDA acc, g : acc + g.n, 0, SubSeq(segs, a, b)) IN
  SubSeq(segs, 1, a - 1) \o <<Free(segs[a].s, tot)>> \o SubSeq(segs, b + 1, Len(segs))
ReleaseAt(slabs, sl, s, n) ==
  LET segs == slabs[sl] j == CHOOSE x \in 1..Len(segs) : segs[x].s = s /\ segs[x].n = n /\ segs[x].u IN
  [slabs EXCEPT ![sl] = Release(segs, j)]
RECURSIVE ReleaseKeys(_, _)
ReleaseKeys(slabs, S) == IF S = {} THEN slabs ELSE
  LET k == CHOOSE x \in S : TRUE u == SegOf(U(slabs), k) IN ReleaseKeys(ReleaseAt(slabs, u.sl, u.s, u.n), S \ {k})

Drop(ch, S) == [x \in DOMAIN ch \ S |-> ch[x]]
Init == p = [slabs |-> <<>>, ch |-> <<>>, max |-> MaxSlab, pool |-> PoolPages, odd |-> FALSE, lru |-> TRUE] /\ tick = 1

Create(k, n) ==
  /\ k \notin DOMAIN p.ch
  /\ LET s2 == Find(k, n) IN
     IF s2 = <<>> THEN UNCHANGED p /\ Assert(NoRoom(p, k, n), "refused although there is room")
     ELSE /\ Assert(Place(p, s2, k, n), <<"placement", p, s2>>)
          /\ p' = [p EXCEPT !.slabs = s2, !.ch = Drop(@, Gone(p, s2)) @@ (k :> [data |-> <<>>, pins |-> 1, rec |-> tick])]
Access(k) == k \in DOMAIN p.ch /\ p.ch[k].pins < 2 /\ p' = [p EXCEPT !.ch[k].pins = @ + 1, !.ch[k].rec = tick]
Unpin(k)  == k \in DOMAIN p.ch /\ p.ch[k].pins > 0 /\ p' = [p EXCEPT !.ch[k].pins = @ - 1]
Extend(k, n) ==
  /\ k \in DOMAIN p.ch /\ p.ch[k].pins > 0
  /\ LET u == SegOf(U(p.slabs), k)
         segs == p.slabs[u.sl]
         j == CHOOSE x \in 1..Len(segs) : segs[x].u /\ segs[x].k = k IN
     /\ n > u.n
     /\ IF j < Len(segs) /\ ~segs[j + 1].u /\ segs[j + 1].n >= n - u.n
        THEN LET g == segs[j + 1]
                 s2 == [p.slabs EXCEPT ![u.sl] = SubSeq(segs, 1, j - 1) \o <<UsedSeg(u.s, n, k), Free(u.s + n, g.n - (n - u.n))>>
                                                   \o SubSeq(segs, j + 2, Len(segs))] IN
             Assert(Grow(p, s2, k, n), "growth in place") /\ p' = [p EXCEPT !.slabs = s2]
        ELSE LET s1 == Find(k, n) IN
             IF s1 = <<>> THEN UNCHANGED p /\ Assert(NoRoom(p, k, n), "growth refused although there is room")
             ELSE LET s2 == ReleaseAt(s1, u.sl, u.s, u.n) IN
                  /\ Assert(Grow(p, s2, k, n), <<"growth by moving", p, s2>>)
                  /\ p' = [p EXCEPT !.slabs = s2, !.ch = [Drop(@, Gone(p, s2)) EXCEPT ![k].rec = tick]]
Delete(k) == k \in DOMAIN p.ch /\ p.ch[k].pins = 0 /\ p' = [p EXCEPT !.slabs = ReleaseKeys(@, {k}), !.ch = Drop(@, {k})]
DelPrefix(pre) ==
  LET S == {k \in DOMAIN p.ch : IsPre(pre, k) /\ p.ch[k].pins = 0} IN
  S # {} /\ p' = [p EXCEPT !.slabs = ReleaseKeys(@, S), !.ch = Drop(@, S)]

Next == /\ tick < MaxTick /\ tick' = tick + 1
        /\ \/ \E k \in K : \/ \E n \in 1..MaxPages : Create(k, n) \/ Extend(k, n)
                           \/ Access(k) \/ Unpin(k) \/ Delete(k)
           \/ \E pre \in {<<1>>, <<2>>} : DelPrefix(pre)
Spec == Init /\ [][Next]_<<p, tick>>

Ok == WellFormed(p.slabs, p.ch, p.max, p.pool) /\ KeysOf(U(p.slabs)) = DOMAIN p.ch
(* no two neighbouring free segments, except empty ones left by growth in place *)
Merged == \A i \in 1..Len(p.slabs) : \A j \in 1..(Len(p.slabs[i]) - 1) :
             ~p.slabs[i][j].u /\ ~p.slabs[i][j + 1].u => p.slabs[i][j].n = 0 \/ p.slabs[i][j + 1].n = 0
PinnedStay == [][\A k \in DOMAIN p.ch : p.ch[k].pins > 0 => k \in DOMAIN p'.ch]_<<p, tick>>
=============================================================================
