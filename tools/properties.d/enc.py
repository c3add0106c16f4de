DM = "omniscidb/DataMgr/"
EN = [DM + "NoneEncoder.h", DM + "FixedLengthEncoder.h", DM + "DateDaysEncoder.h"]
N = "Random histories over every type Encoder::Create knows (quick 1500, thorough 12000 histories), each reported statistic of which TLC computes anew from the values; EncoderStatsMC shows that keeping bounds one value at a time equals the definition for all histories up to its depth."
PROPS = [
 dict(id="E01", title="Chunk statistics bound exactly the non-null values written, for every type",
  statement="After any sequence of bulk, encoded and single-value updates, the minimum and maximum a chunk reports are those of the non-null values seen since the last reset, and the null flag says exactly whether a null (of that type and width) was among them. This holds for booleans, integers, decimals, floating point, dictionary ids of 1, 2 and 4 bytes, dates in days (bounds in seconds at day granularity), times, timestamps and intervals of every width, for batches of any size however they are split among threads; dates that do not fit are refused, values that do not fit their width are left out. A chunk without values reports bounds that no value lies between.",
  over=["inputs", "histories"], quant="All value sequences, including the extremes of every width and the inline nulls, split into batches in any way.",
  why="The encoder test feeds one fixed list to some of the types and never mixes raw, encoded and scalar updates; fragment skipping silently drops rows if a bound is wrong.",
  files=EN + [DM + "Encoder.cpp", DM + "ChunkMetadata.h", "omniscidb/Shared/InlineNullValues.h", "omniscidb/Shared/DateConverters.h"],
  mech=[("updateStats and updateStatsEncoded of each encoder", EN[0]), ("narrow fixed-length encoding", EN[1]), ("seconds to days, overflow validation", EN[2]), ("choice of the encoder", DM + "Encoder.cpp")], note=N),
 dict(id="E02", title="Statistics survive reduction, copy, serialization, merge and reset unchanged",
  statement="Reducing or merging statistics gives those of both inputs together; copying, synchronising a buffer's encoder, and writing metadata and reading it back give equal statistics and element counts; setting statistics reports whether anything changed and later updates extend what was set; resetting forgets everything. The metadata objects handed out carry the same statistics, byte and element counts by every way of asking, are equal exactly if all of that is equal, and compute lazily supplied statistics once.",
  over=["histories", "inputs"], quant="All sequences of these operations over any number of encoders of any type.",
  why="Tests check single updates; nothing composes reset, copy, serialization and further updates.",
  files=EN + [DM + "ArrayNoneEncoder.h", DM + "FixedLengthArrayNoneEncoder.h", DM + "StringNoneEncoder.h", DM + "ChunkMetadata.h", DM + "AbstractBuffer.cpp"],
  mech=[("reduceStats, copyMetadata, writeMetadata, readMetadata, resetChunkStats", EN[0]), ("mergeStats, fillChunkStats, ChunkMetadata", DM + "ChunkMetadata.h"), ("syncEncoder", DM + "AbstractBuffer.cpp")], note=N),
 dict(id="E03", title="Array and string chunk statistics cover all elements, nulls and null arrays",
  statement="For variable and fixed-length array chunks the bounds are those of all non-null elements of all arrays in the given range, whatever lies between them (null arrays, empty arrays, null elements), and the null flag is set exactly by a null array or a null element; for string chunks it is set exactly by an empty string in the range. The number of values that fit a byte limit is the longest prefix of the given range whose total length does not exceed it.",
  over=["inputs", "histories"], quant="All sequences of arrays and strings, all ranges, all element types.",
  why="The tests cover a few arrays per type, not ranges, resets and null patterns.",
  files=[DM + "ArrayNoneEncoder.h", DM + "FixedLengthArrayNoneEncoder.h", DM + "StringNoneEncoder.h", DM + "StringNoneEncoder.cpp"],
  mech=[("update_elem_stats per element type", DM + "ArrayNoneEncoder.h"), ("getNumElemsForBytesInsertData", DM + "StringNoneEncoder.cpp")], note=N),
]
