------------------------------ MODULE TraceMeta -----------------------------
(* Accepts what the configuration builder and the schema catalogues answer.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES i, cfg, tabs, route, ever
S == INSTANCE Settings
C == INSTANCE Catalogue
Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"EXPECTED", i, what>>) /\ FALSE
Diff(a, b) == {f \in DOMAIN a : a[f] # b[f]}
RECURSIVE SetAll(_, _)
SetAll(c, s) == IF s = <<>> THEN c ELSE SetAll([c EXCEPT ![Head(s).f] = Head(s).v], Tail(s))
NewOk(e) == /\ Say(e.a.same = 1, "the given configuration")
            /\ LET w == SetAll(e.a.base, e.set) IN Say(e.a.cfg = w, <<"settings as given, but differ", Diff(w, e.a.cfg)>>)
ParseOk(e) ==
  IF S!Refused(cfg, e.args, e.gtest) \/ e.junk = 1
  THEN /\ Say(e.a.ok = 0, "refused")
       /\ Say(~(e.junk = 1 \/ S!Malformed(cfg, e.args, e.gtest)) \/ e.a.cfg = cfg, <<"refused: nothing changes", Diff(cfg, e.a.cfg)>>)
  ELSE /\ Say(e.a.ok = 1, "accepted")
       /\ Say((e.a.help = 1) = S!Help(e.args), "help")
       /\ LET w == S!After(cfg, e.args) IN
          Say(e.a.cfg = w, <<"settings", [f \in Diff(w, e.a.cfg) |-> <<w[f], e.a.cfg[f]>>]>>)
P(e) == C!Prov(route, e.p, e.db)
Step(e) ==
  /\ Say(e.a.k = "ok", "ok")
  /\ CASE e.op = "cfg_new" -> NewOk(e) /\ cfg' = e.a.cfg /\ UNCHANGED <<tabs, route, ever>>
       [] e.op = "cfg_parse" -> ParseOk(e) /\ cfg' = e.a.cfg /\ UNCHANGED <<tabs, route, ever>>
       [] e.op = "sch_new" -> tabs' = {} /\ route' = <<>> /\ ever' = {} /\ UNCHANGED cfg
       [] e.op = "sch_add" ->
            /\ tabs' = tabs \cup {[p |-> e.p, db |-> e.db, t |-> e.t, name |-> e.name, cols |-> e.cols, view |-> e.view, frags |-> e.frags, rows |-> e.rows]}
            /\ ever' = ever \cup {<<e.p, e.db>>} /\ UNCHANGED <<cfg, route>>
       [] e.op = "sch_drop" -> tabs' = tabs \ C!ById(tabs, e.p, e.db, e.t) /\ UNCHANGED <<cfg, route, ever>>
       [] e.op = "sch_merge" ->
            /\ Say((e.a.ok = 0) = C!Clash(tabs, e.ps), "refused exactly when two providers share a schema")
            /\ route' = IF e.a.ok = 1 THEN C!Route(tabs, e.ps) ELSE route
            /\ UNCHANGED <<cfg, tabs, ever>>
       [] OTHER ->
            /\ UNCHANGED <<cfg, tabs, route, ever>>
            /\ CASE e.op = "sch_dbs" ->
                      LET must == IF e.p >= 0 THEN C!Dbs(tabs, e.p) ELSE C!MergedDbs(tabs, route)
                          may == {x[2] : x \in {y \in ever : IF e.p >= 0 THEN y[1] = e.p ELSE C!Served(route, y[1], y[2])}} IN
                      Say(/\ Cardinality(C!Range(e.a.r)) = Len(e.a.r)
                          /\ must \subseteq C!Range(e.a.r) /\ C!Range(e.a.r) \subseteq may, <<"databases, each once", must>>)
                 [] e.op = "sch_tables" -> LET w == {x.t : x \in C!Of(tabs, P(e), e.db)} IN Say(C!Lists(e.a.r, w), <<"tables", w>>)
                 [] e.op = "sch_cols" -> LET w == C!Columns(tabs, P(e), e.db, e.t) IN Say(e.a.r = w, <<"columns", w>>)
                 [] e.op = "sch_table" -> LET w == C!Table(tabs, P(e), e.db, e.t) IN Say(e.a.r = w, <<"table", w>>)
                 [] e.op = "sch_table_n" -> LET w == C!TableN(tabs, P(e), e.db, e.name) IN Say(e.a.r = w, <<"table", w>>)
                 [] e.op = "sch_col" -> LET w == C!Column(tabs, P(e), e.db, e.t, e.id) IN Say(e.a.r = w, <<"column", w>>)
                 [] e.op = "sch_col_n" -> LET w == C!ColumnN(tabs, P(e), e.db, e.t, e.name) IN Say(e.a.r = w, <<"column", w>>)
Init == i = 1 /\ cfg = <<>> /\ tabs = {} /\ route = <<>> /\ ever = {}
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == Init /\ [][Next]_<<i, cfg, tabs, route, ever>>
Accepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Trace)>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
