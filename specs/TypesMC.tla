------------------------------ MODULE TypesMC ------------------------------
(* Over all types of a small universe: names tell types apart, the canonical   *)
(* and nullable forms are what they should be.                                 *)
EXTENDS Types, FiniteSets
VARIABLES t, u
Us == {"m", "d", "s", "ms", "us", "ns"}
Base == {x \in [k : {"bool", "text"}, n : {0, 1}]
         \cup [k : {"int"}, s : {1, 2, 4, 8}, n : {0, 1}] \cup [k : {"fp"}, s : {4, 8}, n : {0, 1}]
         \cup [k : {"dec"}, s : {8}, p : {5, 10}, sc : {0, 2}, n : {0, 1}]
         \cup [k : {"varchar"}, len : {0, 10}, n : {0, 1}]
         \cup [k : {"date", "time", "interval"}, s : {2, 4, 8}, u : Us, n : {0, 1}]
         \cup [k : {"ts"}, u : Us, n : {0, 1}] : TypeOk(x)} \cup {[k |-> "null"]}
Dicts == {[k |-> "dict", s |-> s, id |-> d, e |-> [k |-> "text", n |-> n], n |-> n] : s \in {1, 2, 4}, d \in {0, 7}, n \in {0, 1}}
Arrays == {x \in [k : {"arrf"}, len : {0, 2}, e : {b \in Base : b.k \in {"int", "ts"}} \cup Dicts, n : {0, 1}]
           \cup [k : {"arrv"}, os : {4}, e : {b \in Base : b.k \in {"int", "ts"}} \cup Dicts, n : {0, 1}] : TypeOk(x)}
All == Base \cup Dicts \cup Arrays
Init == t \in All /\ u = t
Next == u = t /\ u' \in All /\ t' = t
Spec == Init /\ [][Next]_<<t, u>>
NamesTellApart == t # u => Name(t) # Name(u)
CanonIdempotent == Canon(Canon(t)) = Canon(t) /\ TypeOk(Canon(t))
CanonNull == \A n \in {0, 1} : Canon(WithNull(t, n)) = WithNull(Canon(t), n)
NullForms == WithNull(WithNull(t, 0), Nullable(t)) = t /\ TypeOk(WithNull(t, 0)) /\ TypeOk(WithNull(t, 1))
Wider == Size(t) <= Size(Canon(t))
=============================================================================
