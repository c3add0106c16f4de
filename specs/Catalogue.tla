----------------------------- MODULE Catalogue ------------------------------
(* Schema providers and their merge.  A table is [p, db, t, name, cols, ...]:   *)
(* provider, database <<schema, number>>, id, name, columns by id.  Routing     *)
(* maps a schema to the provider that had databases of it at the merge.        *)
EXTENDS Integers, Sequences, FiniteSets
NoProv == -1
Prov(route, p, db) == IF p >= 0 THEN p ELSE IF db[1] \in DOMAIN route THEN route[db[1]] ELSE NoProv
Of(tabs, p, db) == {x \in tabs : x.p = p /\ x.db = db}
ById(tabs, p, db, t) == {x \in Of(tabs, p, db) : x.t = t}
ByName(tabs, p, db, n) == {x \in Of(tabs, p, db) : x.name = n}
Facts(x) == [db |-> x.db, t |-> x.t, name |-> x.name, view |-> x.view, frags |-> x.frags, rows |-> x.rows]
Col(x, c) == [db |-> x.db, t |-> x.t, id |-> c.id, name |-> c.name, type |-> c.type, rowid |-> c.rowid]
Opt(S) == IF S = {} THEN <<>> ELSE <<CHOOSE s \in S : TRUE>>
Table(tabs, p, db, t) == Opt({Facts(x) : x \in ById(tabs, p, db, t)})
TableN(tabs, p, db, n) == Opt({Facts(x) : x \in ByName(tabs, p, db, n)})
ColsOf(x) == {Col(x, x.cols[k]) : k \in DOMAIN x.cols}
Column(tabs, p, db, t, id) == Opt({c \in UNION {ColsOf(x) : x \in ById(tabs, p, db, t)} : c.id = id})
ColumnN(tabs, p, db, t, n) == Opt({c \in UNION {ColsOf(x) : x \in ById(tabs, p, db, t)} : c.name = n})
Range(s) == {s[k] : k \in DOMAIN s}
(* s lists the members of S, each once.                                        *)
Lists(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
RECURSIVE ById2(_)
ById2(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE c \in S : \A d \in S : c.id <= d.id IN <<m>> \o ById2(S \ {m})
Columns(tabs, p, db, t) == ById2(UNION {ColsOf(x) : x \in ById(tabs, p, db, t)})
Schemas(tabs, p) == {x.db[1] : x \in {y \in tabs : y.p = p}}
Clash(tabs, ps) == \E j, k \in DOMAIN ps : j # k /\ Schemas(tabs, ps[j]) \cap Schemas(tabs, ps[k]) # {}
Route(tabs, ps) == [s \in UNION {Schemas(tabs, ps[j]) : j \in DOMAIN ps} |->
                     ps[CHOOSE j \in DOMAIN ps : s \in Schemas(tabs, ps[j])]]
Dbs(tabs, p) == {x.db : x \in {y \in tabs : y.p = p}}
Served(route, p, db) == IF db[1] \in DOMAIN route THEN route[db[1]] = p ELSE FALSE
MergedDbs(tabs, route) == {x.db : x \in {y \in tabs : Served(route, y.p, y.db)}}
=============================================================================
