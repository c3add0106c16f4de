-------------------------- MODULE EncoderStatsMC --------------------------
(* Chunks filled, reduced, copied and reset in every order: bounds kept one    *)
(* value at a time, from sentinels, are those of the values a chunk holds.     *)
EXTENDS EncoderStats, TLC
CONSTANTS Vals, Encs, MaxOps
VARIABLES abs, inc, held, ops
vars == <<abs, inc, held, ops>>
V(x) == <<0, x - 1>>
Top == <<9, 0>>
Bot == <<-9, 0>>
Ty == [k |-> "num", nul |-> V(0), enul |-> V(0), earr |-> V(1), rng |-> [lo |-> Bot, hi |-> Top]]
Mn(a, b) == IF Lt(b, a) THEN b ELSE a
Mx(a, b) == IF Lt(a, b) THEN b ELSE a
Inc0 == [mn |-> Top, mx |-> Bot, nulls |-> FALSE]
IncAdd(s, v) == IF v = Ty.nul THEN [s EXCEPT !.nulls = TRUE] ELSE [s EXCEPT !.mn = Mn(@, v), !.mx = Mx(@, v)]

Init == /\ abs = [e \in Encs |-> Zero] /\ inc = [e \in Encs |-> Inc0] /\ held = [e \in Encs |-> {}] /\ ops = 0
Add(e, v, arr) ==
  /\ abs' = [abs EXCEPT ![e] = IF arr THEN Encoded(@, Ty, <<V(v)>>, TRUE) ELSE Raw(@, Ty, <<V(v)>>)]
  /\ inc' = [inc EXCEPT ![e] = IF arr /\ V(v) = Ty.earr THEN @ ELSE IncAdd(@, V(v))]
  /\ held' = [held EXCEPT ![e] = IF arr /\ V(v) = Ty.earr THEN @ ELSE @ \cup {V(v)}]
Red(e, f) ==
  /\ abs' = [abs EXCEPT ![e] = Join(@, abs[f])]
  /\ inc' = [inc EXCEPT ![e] = [mn |-> Mn(@.mn, inc[f].mn), mx |-> Mx(@.mx, inc[f].mx), nulls |-> @.nulls \/ inc[f].nulls]]
  /\ held' = [held EXCEPT ![e] = @ \cup held[f]]
Cpy(e, f) == abs' = [abs EXCEPT ![e] = Copy(@, abs[f])] /\ inc' = [inc EXCEPT ![e] = inc[f]] /\ held' = [held EXCEPT ![e] = held[f]]
Rst(e) == abs' = [abs EXCEPT ![e] = Reset(@)] /\ inc' = [inc EXCEPT ![e] = Inc0] /\ held' = [held EXCEPT ![e] = {}]
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E e \in Encs : \/ \E v \in Vals, arr \in BOOLEAN : Add(e, v, arr)
                           \/ \E f \in Encs \ {e} : Red(e, f) \/ Cpy(e, f)
                           \/ Rst(e)
Spec == Init /\ [][Next]_vars
Live(S) == S \ {Ty.nul}
Sound == \A e \in Encs : \A v \in Live(held[e]) : Le(inc[e].mn, v) /\ Le(v, inc[e].mx)
Exact == \A e \in Encs :
  /\ inc[e].nulls = abs[e].nulls /\ abs[e].nulls = (Ty.nul \in held[e])
  /\ IF Live(held[e]) = {} THEN abs[e].seen = {} /\ Lt(inc[e].mx, inc[e].mn)
     ELSE abs[e].seen = {inc[e].mn, inc[e].mx} /\ inc[e].mn = MinV(Live(held[e])) /\ inc[e].mx = MaxV(Live(held[e]))
=============================================================================
