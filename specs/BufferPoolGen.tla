---------------------------- MODULE BufferPoolGen ----------------------------
(* Behaviours of BufferPoolMC written out as histories of operations, to be    *)
(* replayed into the real pool.                                                *)
EXTENDS BufferPoolMC, Json
VARIABLE hist

GInit == Init /\ hist = <<>>
Op(o, k, n) == hist' = Append(hist, [op |-> o, key |-> k, n |-> n])
GNext == /\ tick < MaxTick /\ tick' = tick + 1
         /\ \/ \E k \in K : \/ \E n \in 1..MaxPages : \/ Create(k, n) /\ Op("get", k, n)
                                                      \/ Extend(k, n) /\ Op("grow", k, n)
                            \/ Access(k) /\ Op("get", k, 0)
                            \/ Unpin(k) /\ Op("unpin", k, 0)
                            \/ Unpin(k) /\ Op("unpin", k, 0)
                            \/ Delete(k) /\ Op("del", k, 0)
            \/ \E pre \in {<<1>>, <<2>>} : DelPrefix(pre) /\ Op("delp", pre, 0)
GSpec == GInit /\ [][GNext]_<<p, tick, hist>>
Emit == tick = MaxTick => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
