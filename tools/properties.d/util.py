U = "omniscidb/Utils/"
S = "omniscidb/Shared/"
R = "omniscidb/ResultSet/"
N = "Every answer of the real function is compared by TLC with the definition in the specification (trace validation); quick draws thousands of inputs around the boundaries of each function, thorough 7 times as many."
PROPS = [
 dict(id="U01", title="LIKE, ILIKE, REGEXP and string comparison decide exactly what they define",
  statement="For every string, pattern and escape character: LIKE matches exactly if the whole string is described by the pattern (% any run, _ one character, [..] one of a class, escape for literal characters), ILIKE the same ignoring ASCII case, their simple forms exactly if the pattern occurs in the string, REGEXP LIKE exactly if the whole string belongs to the regular language; comparisons are the lexicographic order of unsigned bytes with a prefix before its extensions, and <, <=, >, >=, =, <> and the three-way comparison agree with it. The nullable forms give null exactly for a null operand. None reads beyond the lengths it is given.",
  over=["inputs"], quant="All strings of bytes and well-formed patterns (lower case for ILIKE, as the engine hands them over).",
  why="The unit tests try a few dozen pairs; backtracking, class and escape handling go wrong for particular combinations only.",
  files=[U + "StringLike.cpp", U + "Regexp.cpp"],
  mech=[("string_like_match and its simple and nullable forms", U + "StringLike.cpp"), ("regexp_like", U + "Regexp.cpp"), ("StringCompare and string_lt..string_ne", U + "StringLike.cpp")],
  note="All patterns of length up to 4 over {a,b,%,_} against all strings of length up to 4 over {a,b}, then random classes, escapes and cases; strings are placed before an unreadable page. " + N),
 dict(id="U02", title="Date parts, truncation, addition and difference follow the Gregorian calendar",
  statement="For every instant, before or after 1970 and in every precision (s, ms, us, ns): extracting year, quarter, month, day, day of week or year, week (ISO, Sunday, Saturday), hours to nanoseconds and epoch gives the field of the proleptic Gregorian calendar; truncation gives the beginning of the unit the instant lies in (up to millennia); adding months clamps the day to the month's last and otherwise keeps it, adding shorter units adds exact amounts; differences count the whole units between two instants of possibly different precisions, towards zero; conversion to a date or a time of day and between precisions loses only what the coarser precision cannot hold. Null in gives null out in the nullable forms.",
  over=["inputs"], quant="All instants representable in the precision (tested for years -200000 to 200000), all fields and unit counts that do not overflow.",
  why="The tests cover chosen instants; there are separate fast paths by range and eras of 400 years where one day goes wrong.",
  files=[U + "ExtractFromTime.cpp", U + "ExtractFromTime.h", "omniscidb/QueryEngine/DateTruncate.cpp", "omniscidb/QueryEngine/DateAdd.cpp"],
  mech=[("ExtractFromTime and the extract_* functions", U + "ExtractFromTime.cpp"), ("DateTruncate, DateDiff, DateDiffHighPrecision", "omniscidb/QueryEngine/DateTruncate.cpp"), ("DateAdd, MonthDaySecond", "omniscidb/QueryEngine/DateAdd.cpp")],
  note="CalendarMC checks that the closed formulas of the specification agree with a calendar turned day by day through leap, century and 400-year boundaries. " + N),
 dict(id="U03", title="Dates and times are read from and printed to text without change of value",
  statement="A date, time or timestamp written in any of the supported formats (six of dates, with full or abbreviated month names in any case; seven of times, with or without am/pm and fractions of up to nine digits; optional zone offset, T prefix or separator) is read as exactly the instant it denotes, in the requested unit, digits beyond the unit being dropped; a number is taken as it is where a unix time is allowed; text with an impossible field is refused and yields no value. Printing an instant of years 1000 to 9999, positive or negative, in any precision gives its ISO text, and the fixed-buffer forms write nothing beyond the buffer and nothing at all if it is too small.",
  over=["inputs"], quant="All combinations of formats, fields, fractions, zones and units.",
  why="The parser tests list samples per format; formats are tried in turn on the same text and state can leak between them.",
  files=[S + "DateTimeParser.cpp", S + "DateTimeParser.h", S + "misc.cpp", U + "ExtractStringFromTime.cpp"],
  mech=[("dateTimeParseOptional for dates, times and timestamps", S + "DateTimeParser.cpp"), ("formatDate, formatDateTime, formatHMS", S + "misc.cpp"), ("getStrTStamp and the like", U + "ExtractStringFromTime.cpp")],
  note="The specification generates text and instant from one record of fields and the implementation has to relate the two. " + N),
 dict(id="U04", title="Work division has no gap or overlap; key-value sorts are ordered permutations",
  statement="Dividing a range of any integer type among any number of workers yields consecutive, non-overlapping intervals, numbered from 0, that cover the range exactly, whose sizes differ by at most one with larger ones first, and none that is empty. Sorting keys with their values (parallel, insertion, and the double-array sort) yields keys in the requested order, every value still with its key, none lost or duplicated; the insertion sort is stable.",
  over=["inputs"], quant="All ranges including the extremes of each integer type, all worker counts; all key sequences.",
  why="The tests cover 8-bit ranges and some sizes of sorts; overflow at the ends of wider types and small or duplicate-heavy inputs are not.",
  files=[S + "Intervals.h", S + "parallel_sort.h", S + "DoubleSort.h"],
  mech=[("makeIntervals and its iterator", S + "Intervals.h"), ("parallel_sort_by_key, insertion_sort_by_key", S + "parallel_sort.h"), ("double_sort::Iterator", S + "DoubleSort.h")], note=N),
 dict(id="U05", title="Quantiles are those of all merged data, exactly or within the digest error",
  statement="The exact quantile of values added in any distribution over accumulators and merged in any order is the quantile of all the values under the requested interpolation (lower, higher, nearest, midpoint, linear), null if there are none, the same before and after finalizing. The approximate quantile keeps the total weight, lies within the data, is monotone in q and is off in rank by no more than the digest's resolution, however values are distributed over digests.",
  over=["inputs", "histories"], quant="All value sequences, partitions and merge orders, all q.",
  why="The tests use one accumulator and a few merges; the merging and selection depend on sizes and order.",
  files=[S + "quantile.h", S + "approx_quantile.h", R + "QuantileAccessors.h"],
  mech=[("Quantile::add, merge, finalize, quantile", S + "quantile.h"), ("TDigest::add, mergeTDigest, mergeBuffer, quantile", S + "approx_quantile.h")], note=N),
 dict(id="U06", title="Distinct counts equal the number of distinct values or estimate it in bounds",
  statement="The size of a distinct-value set is the number of different values in it, whether kept as a bitmap, as sub-bitmaps per thread block, or as a hash set, and the union of sets (also of different device layouts) holds exactly the values of any of them. The HyperLogLog union takes the maximum of each register, its estimate is within five standard errors of the number of distinct values for small, medium and large cardinalities, its rank function counts leading zeros up to the width, and the register count chosen for an error rate is the smallest that achieves it.",
  over=["inputs"], quant="All sets of values, partitions, bitmap sizes not multiples of a word, register counts.",
  why="The tests only run queries through the engine, which the CI build here does not include.",
  files=[R + "CountDistinct.h", R + "HyperLogLog.h", R + "CountDistinctDescriptor.h", "omniscidb/QueryEngine/HyperLogLogRank.h"],
  mech=[("count_distinct_set_size, count_distinct_set_union, bitmap_set_union", R + "CountDistinct.h"), ("hll_size, hll_unify, hll_size_for_rate", R + "HyperLogLog.h"), ("get_rank", "omniscidb/QueryEngine/HyperLogLogRank.h")], note=N),
 dict(id="U07", title="Rewriting SQL text changes what it must and leaves string literals untouched",
  statement="String literals of a query are found at exactly their positions, empty ones and doubled quotes included; the rewriting of PostgreSQL forms replaces every occurrence outside literals, none inside, leaves all other text as it is and ends; secrets are replaced wherever a key names them, and nothing else; new lines outside quotes become spaces, inside quotes they stay. Splitting, joining, trimming, case conversion, quoting, truncation and base64 satisfy their definitions, and base64 decodes to the original bytes.",
  over=["inputs"], quant="All texts with balanced quotes, all separators and limits.",
  why="Tests give one query per rule, without several literals and matches in one text.",
  files=[S + "StringTransform.cpp", S + "StringTransform.h", S + "base64.h", "omniscidb/Calcite/CalciteAdapter.cpp"],
  mech=[("find_string_literals, inside_string_literal, apply_shim", S + "StringTransform.cpp"), ("pg_shim", "omniscidb/Calcite/CalciteAdapter.cpp"), ("split, strip, hide_sensitive_data_from_query", S + "StringTransform.cpp"), ("encode_base64, decode_base64", S + "base64.h")],
  note="Texts are composed of pieces with known replacements; the result must be the concatenation of the replacements. " + N),
]
