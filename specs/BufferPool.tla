----------------------------- MODULE BufferPool -----------------------------
(* A buffer pool: slabs of pages, divided into segments that are free or hold *)
(* one chunk each.  Chunks are pinned while somebody uses them; unpinned ones *)
(* may be evicted to make room.  The operators below say which layouts may    *)
(* follow which, without saying which free place is taken.                    *)
(*   pool  == [slabs, ch, max, pool, odd, lru]                                *)
(*     slabs: Seq of Seq of [s, n, u, k]   (first page, pages, used, key)     *)
(*     ch:    key -> [data, pins, rec]     (rec: when it was last asked for)  *)
(*     max, pool: pages of the largest slab, pages of the whole pool          *)
(*     odd:   TRUE if slab creation may fail for outside reasons              *)
(*     lru:   TRUE if this pool is asked directly, so that recency is known   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinI(a, b) == IF a < b THEN a ELSE b
Ceil(b, pg) == (b + pg - 1) \div pg

SlabSize(segs) == IF segs = <<>> THEN 0 ELSE segs[Len(segs)].s + segs[Len(segs)].n
Pages(slabs) == FoldLeft(LAMBDA acc, segs : acc + SlabSize(segs), 0, slabs)

(* The used segments, as a set.                                               *)
U(slabs) == {[sl |-> x[1], s |-> slabs[x[1]][x[2]].s, n |-> slabs[x[1]][x[2]].n, k |-> slabs[x[1]][x[2]].k] :
             x \in {<<i, j>> \in UNION {{i0} \X (1..Len(slabs[i0])) : i0 \in 1..Len(slabs)} : slabs[i][j].u}}
KeysOf(us) == {u.k : u \in us}
SegOf(us, k) == CHOOSE u \in us : u.k = k

Pinned(p) == {k \in DOMAIN p.ch : p.ch[k].pins > 0}
Hit(p, sl, s, n) == {u.k : u \in {v \in U(p.slabs) : v.sl = sl /\ v.s < s + n /\ s < v.s + v.n}}
Starts(segs, n) == {s \in 0..SlabSize(segs) : s + n <= SlabSize(segs)}
FreeRun(p, n)  == \E sl \in 1..Len(p.slabs) : \E s \in Starts(p.slabs[sl], n) : Hit(p, sl, s, n) = {}
EvictRun(p, n) == \E sl \in 1..Len(p.slabs) : \E s \in Starts(p.slabs[sl], n) : Hit(p, sl, s, n) \cap Pinned(p) = {}
Left(p) == p.pool - Pages(p.slabs)
CanSlab(p, n) == n <= MinI(p.max, Left(p))

InPlace(p, k, n) ==
  LET u == SegOf(U(p.slabs), k) IN
    /\ u.s + n <= SlabSize(p.slabs[u.sl])
    /\ Hit(p, u.sl, u.s, n) = {k}

Recency(p, E) == IF E = {} THEN 0 ELSE MaxOf({p.ch[k].rec : k \in E})
(* What evicting from segment boundaries on would cost.                       *)
Costs(p, n) == {Recency(p, Hit(p, w[1], w[2], n)) : w \in
                  {<<sl, s>> \in UNION {{i} \X Starts(p.slabs[i], n) : i \in 1..Len(p.slabs)} :
                     /\ \E j \in 1..Len(p.slabs[sl]) : p.slabs[sl][j].s = s
                     /\ Hit(p, sl, s, n) \cap Pinned(p) = {}}}

(* Every chunk but k stays where it was; some unpinned ones may be gone.      *)
Kept(p, s2, k) == /\ \A u \in U(s2) : u.k # k => u \in U(p.slabs)
                  /\ (KeysOf(U(p.slabs)) \ KeysOf(U(s2))) \cap Pinned(p) = {}
Gone(p, s2) == KeysOf(U(p.slabs)) \ KeysOf(U(s2))
Same(p, s2) == U(s2) = U(p.slabs) /\ Len(s2) = Len(p.slabs)

(* Room for n pages is found: free room first, then a new slab, then the      *)
(* least recently used chunks go.                                             *)
Room(p, s2, n) ==
  IF p.odd THEN TRUE
  ELSE IF FreeRun(p, n) THEN Gone(p, s2) = {} /\ Len(s2) = Len(p.slabs)
  ELSE IF CanSlab(p, n) THEN /\ Gone(p, s2) = {} /\ Len(s2) = Len(p.slabs) + 1
                             /\ SlabSize(s2[Len(s2)]) = MinI(p.max, Left(p))
  ELSE /\ Len(s2) = Len(p.slabs) /\ Gone(p, s2) # {}
       /\ p.lru => \A c \in Costs(p, n) : Recency(p, Gone(p, s2)) <= c
Place(p, s2, k, n) ==
  /\ k \in KeysOf(U(s2)) /\ SegOf(U(s2), k).n >= n
  /\ Kept(p, s2, k) /\ Room(p, s2, n)
(* As Place, but the chunk was dropped again.                                 *)
PlaceDropped(p, s2, k, n) == k \notin KeysOf(U(s2)) /\ Kept(p, s2, k) /\ Room(p, s2, n)
Grow(p, s2, k, n) ==
  IF n = 0 THEN Same(p, s2)
  ELSE IF k \notin KeysOf(U(p.slabs)) THEN Place(p, s2, k, n)
  ELSE IF n <= SegOf(U(p.slabs), k).n THEN Same(p, s2)
  ELSE IF InPlace(p, k, n) THEN /\ Kept(p, s2, k) /\ Gone(p, s2) = {} /\ Len(s2) = Len(p.slabs)
                                /\ SegOf(U(s2), k).n >= n
  ELSE Place(p, s2, k, n)
(* Refusing is right only if there is no way.                                 *)
NoRoom(p, k, n) ==
  \/ p.odd
  \/ ~(k \in KeysOf(U(p.slabs)) /\ InPlace(p, k, n)) /\ ~FreeRun(p, n) /\ ~CanSlab(p, n) /\ ~EvictRun(p, n)

(* The layout is a partition of the slabs and holds exactly the chunks.       *)
WellFormed(slabs, ch, max, pool) ==
  /\ \A i \in 1..Len(slabs) :
       /\ slabs[i] # <<>> /\ slabs[i][1].s = 0
       /\ \A j \in 1..(Len(slabs[i]) - 1) : slabs[i][j + 1].s = slabs[i][j].s + slabs[i][j].n
       /\ SlabSize(slabs[i]) <= max
  /\ Pages(slabs) <= pool
  /\ \A u, v \in U(slabs) : u.k = v.k => u = v
  /\ \A u \in U(slabs) : u.n >= 1
  /\ KeysOf(U(slabs)) \subseteq DOMAIN ch

Pat(v, n) == [j \in 1..n |-> (v + j - 1) % 100]
IsPre(pre, k) == Len(pre) <= Len(k) /\ SubSeq(k, 1, Len(pre)) = pre
Overlay(data, off, w) == [j \in 1..(IF off + Len(w) > Len(data) THEN off + Len(w) ELSE Len(data)) |->
                            IF j > off /\ j <= off + Len(w) THEN w[j - off] ELSE data[j]]
=============================================================================
