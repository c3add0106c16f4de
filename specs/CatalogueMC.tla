---------------------------- MODULE CatalogueMC -----------------------------
(* Two providers with tables in three databases of two schemas, created,       *)
(* dropped and merged in any order: what a name finds is what the id finds,    *)
(* and the merge shows each provider's tables of its schemas and no others.    *)
EXTENDS Catalogue
VARIABLES tabs, route, n
Ps == {0, 1}
DBs == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Ids == {1, 2}
Nms == {"a", "b"}
C1 == <<[id |-> 2, name |-> "y", type |-> "INT8", rowid |-> 0], [id |-> 1, name |-> "x", type |-> "TEXT", rowid |-> 0]>>
Tab(p, db, t, nm) == [p |-> p, db |-> db, t |-> t, name |-> nm, cols |-> C1, view |-> 0, frags |-> 1, rows |-> 3]
Init == tabs = {} /\ route = <<>> /\ n = 0
Add == \E p \in Ps, db \in DBs, t \in Ids, nm \in Nms :
         /\ ById(tabs, p, db, t) = {} /\ ByName(tabs, p, db, nm) = {}
         /\ tabs' = tabs \cup {Tab(p, db, t, nm)} /\ UNCHANGED route
Drop == \E x \in tabs : tabs' = tabs \ {x} /\ UNCHANGED route
Merge == \E ps \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>} : ~Clash(tabs, ps) /\ route' = Route(tabs, ps) /\ UNCHANGED tabs
Next == n < 5 /\ n' = n + 1 /\ (Add \/ Drop \/ Merge)
Spec == Init /\ [][Next]_<<tabs, route, n>>
Consistent == \A x \in tabs :
  /\ Table(tabs, x.p, x.db, x.t) = <<Facts(x)>> /\ TableN(tabs, x.p, x.db, x.name) = <<Facts(x)>>
  /\ Columns(tabs, x.p, x.db, x.t) = <<Col(x, C1[2]), Col(x, C1[1])>>
  /\ Column(tabs, x.p, x.db, x.t, 2) = ColumnN(tabs, x.p, x.db, x.t, "y")
Routed == \A db \in DBs, t \in Ids :
  LET p == Prov(route, -1, db) IN
  IF p = NoProv THEN Table(tabs, p, db, t) = <<>> ELSE Table(tabs, p, db, t) = Table(tabs, p, db, t) /\ p \in Ps
Shown == \A x \in tabs : x.db[1] \in DOMAIN route /\ route[x.db[1]] = x.p => x.db \in MergedDbs(tabs, route)
=============================================================================
