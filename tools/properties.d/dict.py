SD = "omniscidb/StringDictionary/StringDictionary.cpp"
SH = "omniscidb/StringDictionary/StringDictionary.h"
N = "The specification is explored exhaustively within small bounds (2-3 strings, nested dictionaries, generations); the binding to the code is by randomised histories (seeded), each validated step by step by TLC, so the code itself is covered on the explored histories only."
PROPS = [
 dict(id="D01", title="A string dictionary is a stable bijection between strings and ids",
  statement="Adding a string to a dictionary returns the id it already has, or else the next unused id; from then on that id reads back as exactly that string, and looking the string up returns that id, however many strings are added later. The empty string is the null value and is never stored.",
  over=["inputs", "histories"], quant="All byte strings and all sequences of adds, look-ups and reads, including those that make the dictionary grow its hash table and its payload storage.",
  why="The unit tests add a few fixed strings or one large batch and read them back; they do not reach mixed histories with collisions, duplicates and growth between every pair of operations.",
  files=[SD, SH], mech=[("hash table of string ids with growth and collision handling", SD), ("payload and offset storage", SD), ("id/string look-up", SD)], note=N),
 dict(id="D02", title="Bulk adds and look-ups agree with one-at-a-time adds",
  statement="Adding a batch of strings gives every string exactly the id it would have got had the strings been added one at a time in order, whatever the batch size, the duplicates in it, and the width of the id array. A batch whose ids do not fit the id width is refused and leaves the dictionary usable; a bulk look-up returns the ids of the present strings, marks the missing ones and counts them.",
  over=["inputs", "histories", "configurations"], quant="All batches (empty, duplicated, with nulls, larger than the parallel threshold), id widths 1, 2 and 4, stand-alone and nested dictionaries in any state.",
  why="The tests load one batch into one fresh 32-bit dictionary; narrow widths, nested dictionaries and parallel inserts into non-empty or empty dictionaries are not reached.",
  files=[SD, SH], mech=[("parallel and serial bulk insertion", SD), ("id width check", SD)], note=N),
 dict(id="D03", title="Nested dictionaries see a frozen prefix of their base",
  statement="A dictionary created over a base dictionary at some generation shows exactly the base's strings up to that generation followed by its own additions, with the same ids for the shared part; later growth of the base never changes what it shows. Reads capped at a generation never show a string added after it, and two dictionaries compare equal only if they have the same base prefix and the same own strings.",
  over=["histories", "inputs"], quant="All chains of nested dictionaries, all generations, all interleavings of growth of the base and the nested ones.",
  why="Nested dictionaries are used by a handful of query tests with one level of nesting and no later growth of the base.",
  files=[SD, SH], mech=[("base dictionary and base generation", SH), ("generation-capped look-ups", SD)], note=N),
 dict(id="D04", title="Translation between dictionaries preserves the strings",
  statement="A translation map from one dictionary to another sends every id to the id of the same string in the target, or to the invalid id exactly when the target (at the given generation) lacks it, and reports how many are missing. A union translation adds exactly the missing strings to the target, and never changes an existing id.",
  over=["inputs", "histories"], quant="All pairs of dictionaries, related by nesting or not, and all source and target generations.",
  why="The tests translate between two or three fixed stand-alone dictionaries at their full generation.",
  files=[SD, "omniscidb/StringDictionary/StringDictionaryProxy.cpp"], mech=[("id translation maps", SD), ("union translation", SD)], note=N),
 dict(id="D05", title="Searches over a dictionary find exactly the matching strings",
  statement="LIKE, ILIKE, regular-expression and comparison searches over a dictionary return exactly the ids whose strings match, each once, up to the generation asked for. The answer never depends on searches made earlier or on strings added between two searches.",
  over=["inputs", "histories"], quant="All patterns with wildcards and escapes, all strings, all histories of repeated searches interleaved with additions, nested dictionaries included.",
  why="The result caches and the generation cap only matter in histories search-add-search with equal patterns; the tests search once per pattern on a static dictionary.",
  files=[SD, "omniscidb/Utils/StringLike.cpp", "omniscidb/Utils/Regexp.cpp"], mech=[("LIKE/regexp/comparison result caches and their invalidation", SD), ("sorted cache for comparisons", SD)], note=N),
 dict(id="D06", title="Concurrent use of a string dictionary is linearizable",
  statement="When several threads add, bulk add, look up, search and read the same family of dictionaries, every operation behaves as if it happened at one instant between its call and its return. In particular two threads adding the same string get the same id and no id is ever given to two strings.",
  over=["schedules", "inputs", "histories"], quant="All interleavings of concurrent operations on a dictionary and the dictionaries nested over it.",
  why="Unit tests are single-threaded or check only the final contents of one multi-threaded load.",
  files=[SD, SH], mech=[("reader/writer lock with re-check under the exclusive lock", SD)],
  tech="TLA+ model of the locking protocol checked with TLC; recorded concurrent histories of the real code checked for linearizability by TLC",
  note="The locking protocol is model-checked for all interleavings of 3 threads; the real code is covered on the schedules that repeated stress runs with several threads and injected yields reach."),
]
