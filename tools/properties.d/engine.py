QE = "omniscidb/QueryEngine/"
RS = "omniscidb/ResultSet/"
RR = "omniscidb/ResultSetRegistry/"
N = ("Relational.tla is an executable specification of the query semantics: TLC evaluates every recorded query on the recorded table contents and "
     "compares types, bags and orders. Queries are random trees over random small tables and random execution options (fragments, columnar or row-wise output, "
     "lazy fetch, zero copy, caches, hoisting, multi-fragment kernels and results); what the engine refuses with an error is accepted, what it answers must be right.")
T = "executable TLA+ specification of query semantics; TLC validates recorded runs of the real engine (compiled from the tree) against it"
PROPS = [
 dict(id="Q01", title="Filters and projections follow SQL three-valued logic row by row",
  statement="A filter keeps exactly the rows for which its condition is true (neither false nor null), and a projection gives for each kept row the value of each expression, with nulls propagated as SQL prescribes, for arithmetic, comparisons, AND/OR/NOT, CASE, IN lists, casts and null tests over nullable and NOT NULL columns. The outcome does not depend on how the table is fragmented or which execution options are on.",
  over=["inputs", "configurations"], quant="All expressions of the covered grammar, all contents and fragmentations of tables, all combinations of the execution options.",
  why="Expression evaluation is compiled per query; nullability, literal hoisting, lazy fetch and output layout multiply into far more combinations than the hand-written queries of the tests, most of which cannot even be built here.",
  files=[QE + "CodeGenerator.h", QE + "ArithmeticIR.cpp", QE + "CompareIR.cpp", QE + "LogicalIR.cpp", QE + "CaseIR.cpp", QE + "CastIR.cpp", RS + "ResultSetIteration.cpp"],
  mech=[("code generation of expressions", QE + "IRCodegen.cpp"), ("reading result slots", RS + "ResultSetIteration.cpp")], note=N, tech=T),
 dict(id="Q02", title="Grouped and keyless aggregates equal folding each group's rows",
  statement="An aggregation gives exactly one row per distinct combination of its keys (null being a key value of its own), or exactly one row when it has no keys, and COUNT, SUM, MIN, MAX, AVG, COUNT DISTINCT, SAMPLE, SINGLE_VALUE and their conditional forms in it are those of the group's rows, ignoring nulls, independent of hash layout, fragments, reduction order and thread count.",
  over=["inputs", "configurations", "schedules"], quant="All key and value columns of the covered types with any nulls, ranges and sparsity, all fragmentations and execution options.",
  why="Which hash layout is taken depends on column statistics, number of keys and options; tests sample a few and not those with nulls, empty fragments or empty groups.",
  files=[QE + "MemoryLayoutBuilder.cpp", QE + "QueryMemoryInitializer.cpp", RS + "ResultSetReduction.cpp", QE + "ResultSetReductionJIT.cpp", RS + "ResultSetIteration.cpp"],
  mech=[("choice of hash layout from column ranges", QE + "MemoryLayoutBuilder.cpp"), ("reduction of partial results", QE + "ResultSetReductionJIT.cpp"), ("initial values and empty entries", QE + "OutputBufferInitialization.cpp")], note=N, tech=T),
 dict(id="Q03", title="Joins return exactly the matching pairs, outer joins the rest with nulls",
  statement="An inner join returns each pair of rows satisfying its condition exactly once; a left join in addition each left row without a match exactly once, with nulls on the right; semi and anti joins each left row with, respectively without, a match at most once. Nulls never match. This holds for equi joins on one or several columns, dictionary strings of different dictionaries, and loop joins, whatever hash table layout is chosen.",
  over=["inputs", "configurations"], quant="All table contents with duplicates, nulls and empty sides, all covered join conditions and chains of joins, all hash layouts and fragmentations.",
  why="Hash layout (one-to-one, one-to-many, keyed, baseline) and fallback depend on the data; tests sample few data sets per layout.",
  files=[QE + "JoinHashTable/PerfectJoinHashTable.cpp", QE + "JoinHashTable/BaselineJoinHashTable.cpp", QE + "JoinHashTable/Runtime/HashJoinRuntime.cpp", QE + "IRCodegen.cpp", QE + "ColumnFetcher.cpp"],
  mech=[("building join hash tables", QE + "JoinHashTable/HashJoin.cpp"), ("outer join null rows", QE + "IRCodegen.cpp"), ("linearized columns", QE + "ColumnFetcher.cpp")], note=N, tech=T),
 dict(id="Q04", title="Sorting orders all rows; limit and offset cut that order",
  statement="A sorted result is a permutation of its input ordered by the given fields, directions and null placement; with limit and offset it is a contiguous part of such an order of exactly the right length. Ties may come in any order, and no row is lost or duplicated.",
  over=["inputs", "configurations"], quant="All inputs with ties and nulls, all field lists, directions, null placements, limits and offsets, over projections and aggregates, with any execution options.",
  why="Top-N, full sorts, parallel sorts, sorts over group-by hash tables and over columnar results are different code; tests look at few shapes.",
  files=[RS + "ResultSet.cpp", QE + "RelAlgExecutor.cpp", QE + "StreamingTopN.cpp"],
  mech=[("permutation sort and top-N", RS + "ResultSet.cpp"), ("streaming top-N heaps", QE + "StreamingTopN.cpp")], note=N, tech=T),
 dict(id="Q05", title="Window functions see their partition in their order",
  statement="Ranking, offset, first/last value and aggregate window functions give for each row the value computed from the rows of its partition in the given order, and leave the rows and other columns as they are. Results that depend on ties are those of some order consistent with the ORDER BY.",
  over=["inputs", "configurations"], quant="All partitionings and orders with ties and nulls over single-fragment tables.",
  why="Window results depend on the arrangement of partitions and ties; tests compare some fixed queries.",
  files=[QE + "WindowContext.cpp", QE + "WindowFunctionIR.cpp"], mech=[("window permutation and partition start/end", QE + "WindowContext.cpp")], note=N + " Windows over empty or multi-fragment tables are refused by the engine.", tech=T),
 dict(id="Q06", title="String predicates and functions act on the strings, not their ids",
  statement="Comparison, IN, LIKE (with escape), ILIKE, regular expressions and string functions over dictionary-encoded and plain text columns give what the same operation gives on the strings themselves, row by row, with nulls propagated, whatever the order in which strings were added to the dictionary and in whichever dictionary.",
  over=["inputs", "configurations"], quant="All strings and patterns over a small alphabet incl. wildcards and escapes, all orders of insertion.",
  why="Predicates on dictionaries are rewritten into id lists and id ranges; their correctness depends on the contents and growth of dictionaries.",
  files=[QE + "StringOpsIR.cpp", QE + "InValuesIR.cpp", "omniscidb/StringDictionary/StringDictionary.cpp", "omniscidb/Utils/StringLike.cpp"],
  mech=[("LIKE and regexp over dictionaries", QE + "StringOpsIR.cpp"), ("IN lists over dictionaries", QE + "InValuesIR.cpp")], note=N, tech=T),
 dict(id="Q07", title="Date and time functions follow the proleptic Gregorian calendar",
  statement="EXTRACT, DATE_TRUNC, DATEADD, DATEDIFF and casts on dates and timestamps of any unit, before and after 1970, agree with the proleptic Gregorian calendar, with nulls propagated.",
  over=["inputs"], quant="All timestamps in the supported range, all fields, units and column types.",
  why="Calendar arithmetic has corner cases (leap days, centuries, negative timestamps, ISO weeks) that sampled dates of tests miss.",
  files=["omniscidb/Utils/ExtractFromTime.cpp", QE + "DateTimeIR.cpp", QE + "DateTruncate.cpp", QE + "DateAdd.cpp"],
  mech=[("generated extract and truncate code", QE + "DateTimeIR.cpp")], note=N, tech=T),
 dict(id="Q08", title="A kept result is a stable table: readable, sliceable, queryable",
  statement="A result kept in the registry reads the same every time until it is released, whatever happens to the tables it came from; its head and tail of n rows are its first and last rows in order; a query over it gives what the same query gives over a table with those rows; released results are gone.",
  over=["histories", "inputs", "configurations"], quant="All histories of keeping, reading, slicing, querying and releasing results of any shape and layout.",
  why="Results are stored in many layouts (row-wise, columnar, lazily fetched, sorted permutations, several fragments) with conversions between them; tests reuse few of them as tables.",
  files=[RR + "ResultSetRegistry.cpp", RR + "ColumnarResults.cpp", RR + "ResultSetTableToken.cpp", RS + "ResultSet.cpp"],
  mech=[("conversion of result sets to columns", RR + "ColumnarResults.cpp"), ("results as table data", RR + "ResultSetRegistry.cpp")], note=N, tech=T),
 dict(id="Q09", title="Answers always reflect the current tables, also for concurrent queries",
  statement="A query answers from the contents its tables have when it runs: after any history of appends, drops, recreations, cache clearings and other queries, sequential or concurrent, cached plans, code, statistics, hash tables and chunks never make an answer differ from that of a fresh engine.",
  over=["histories", "schedules", "configurations"], quant="All histories of table changes and queries, with all caches on or off, and all interleavings of concurrent queries.",
  why="Staleness needs a particular order of query, change and query with a cache hit in between; concurrency is untested.",
  files=[QE + "Execute.cpp", QE + "CodeCacheAccessor.h", QE + "DataRecycler/HashtableRecycler.cpp", QE + "ResultSetReductionJIT.cpp", "omniscidb/DataMgr/DataMgr.cpp"],
  mech=[("hash table recycler and its keys", QE + "DataRecycler/HashtableRecycler.cpp"), ("code cache", QE + "CodeCacheAccessor.h"), ("chunk pool invalidation", "omniscidb/DataMgr/DataMgr.cpp")], note=N, tech=T),
]
