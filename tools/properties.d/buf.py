BM = "omniscidb/DataMgr/BufferMgr/BufferMgr.cpp"
BC = "omniscidb/DataMgr/BufferMgr/Buffer.cpp"
BH = "omniscidb/DataMgr/BufferMgr/Buffer.h"
CB = "omniscidb/DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.cpp"
N = "The allocator's algorithm is explored exhaustively for 3-4 chunks in a pool of 5 pages (BufferPoolMC); the real pools (CPU pool, tiered CPU pool, pool over pool) are bound by random users and by behaviours TLC generates from the specification, every step and the whole layout of which TLC validates."
PROPS = [
 dict(id="B01", title="The buffer pool returns a chunk's own bytes whatever was evicted or moved",
  statement="A chunk requested from the pool reads as the bytes its storage holds for it (as much as was asked for), overlaid by what the holder wrote or appended while the chunk stayed in the pool. Growing, moving, evicting and refetching other chunks, a request for a longer part of a cached chunk, and zero-copy access never show the bytes of another chunk or lose bytes.",
  over=["histories", "inputs", "configurations"], quant="All histories of requests, writes, appends, reservations and releases on pools of any size over a storage or over another pool.",
  why="Tests run queries over tables that fit in memory, so eviction, growth by moving, partial refetching and two-level fetching are hardly reached and never combined.",
  files=[BM, BC, CB, "omniscidb/DataMgr/AbstractBuffer.cpp"], mech=[("fetch, extend and copy of chunks", BM), ("growth in place or by moving", BM), ("write and append", BC)], note=N),
 dict(id="B02", title="A pinned chunk is never evicted, moved by others or deleted",
  statement="From the moment a chunk is handed out until its last user releases it, the chunk stays in the pool at the same memory, whatever other requests, prefix deletions or clearings of the pool happen; the pin count is exactly the number of its users. Only its user's own growth may move it.",
  over=["histories", "configurations"], quant="All histories with any nesting of pins and any memory pressure.",
  why="Eviction next to pinned neighbours needs a nearly full pool in a particular layout; tests have none.",
  files=[BM, BH], mech=[("eviction skips pinned segments", BM), ("pin counts", BH), ("clearSlabs and prefix deletion skip pinned chunks", BM)], note=N),
 dict(id="B03", title="The pool's segments partition its slabs and its accounting is exact",
  statement="After every operation the segments of each slab cover it without gaps or overlaps, every chunk of the pool has exactly one segment, large enough, at which its memory lies, and freed room can be used again. The reported numbers of allocated pages, pages in use, chunks and pins equal what the layout shows, and the pool never exceeds its maximum size or slab size.",
  over=["histories", "configurations"], quant="All histories of allocation, growth, release, eviction, clearing and failure of slab creation.",
  why="The layout invariants can only be broken by particular sequences of splitting, merging and moving segments, of which tests sample few.",
  files=[BM, CB], mech=[("segment lists, splitting and merging", BM), ("slab creation", CB), ("memory reports", BM)], note=N),
 dict(id="B04", title="Memory is refused only if it cannot be had; least recently used chunks go first",
  statement="A request is refused with out-of-memory only if no free run of pages, no further slab and no run of unpinned chunks is large enough, and a refusal changes nothing. Nothing is evicted while free room or a new slab would do; if something has to go, no other choice would have evicted only chunks that were used longer ago.",
  over=["histories", "configurations"], quant="All layouts of free, unpinned and pinned segments and all request sizes, up to the slab size and beyond.",
  why="Tests check that one oversized request fails; they never compare a refusal or an eviction with the alternatives.",
  files=[BM], mech=[("findFreeBuffer: free segment, new slab, cheapest eviction", BM), ("touch order", BM)], note=N),
 dict(id="B05", title="Deleting by key prefix removes exactly the unpinned chunks under it",
  statement="Deleting by a key prefix removes all unpinned chunks whose key starts with that prefix and no other chunk; afterwards the chunks are fetched anew from storage. A chunk in use is left in place for its users.",
  over=["histories", "inputs"], quant="All prefixes and key sets, all pin states.",
  why="Dropping tables is tested with one or two tables and without concurrent users of their chunks.",
  files=[BM], mech=[("ordered chunk index scanned from the prefix on", BM)], note=N),
 dict(id="B06", title="Concurrent users of a pool get complete chunks and nobody hangs",
  statement="When several threads request, use, allocate, release and delete chunks of one pool, each gets the complete bytes of the chunk it asked for, pinned; a chunk is fetched by one thread at a time while the others wait for it; a failing fetch wakes the waiters. When all are done, nothing stays pinned and the layout is consistent.",
  over=["schedules", "fault_sequences", "histories"], quant="All interleavings of requests, evictions, deletions and failing fetches.",
  why="Tests use the pool from one query at a time; the in-progress protocol between threads is not tested at all.",
  files=[BM, BH], mech=[("in-progress condition variables", BM), ("lock order of segments, index and unsized segments", BM)],
  tech="TLA+ model of the fetch protocol (safety and no-hang liveness) checked with TLC; stress runs of the real pool validated against the specification by TLC",
  note="The protocol is model-checked for all interleavings of 3 users; the real code is covered on the schedules reached by stress runs with up to 8 threads."),
 dict(id="B07", title="A failed fetch or slab allocation leaves the pool as if not requested",
  statement="If the storage fails to deliver a chunk or slab memory cannot be had, the requester gets an error, no chunk without data and no pin is left behind, and later requests for the same or other chunks succeed as usual.",
  over=["fault_sequences", "histories"], quant="A failure at any fetch, of a new chunk or of the extension of a cached one, in any state of the pool.",
  why="No test injects a failure below the pool.",
  files=[BM], mech=[("clean-up in getBuffer and createBuffer", BM), ("halving slab sizes after a failed slab", BM)], note=N),
]
