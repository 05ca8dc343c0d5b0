"""Single source for properties.jsonl, MANIFEST.json and the configuration of the checks (bin/gen.py writes the two files)."""

L = "Src/libCZI/"
REAL_IO = ["real: libCZI writer, reader/writer, reader, parsing and statistics code (Src/libCZI, unmodified)", "real: zstd, JxrDecode where reached"]
STUB_DISK = "stub: storage = in-memory disk behind the public stream interfaces (IInputStream/IOutputStream/IInputOutputStream)"

PROPS = {}

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, rule, components, assumptions, level_note, ready=True, variants=(("fault", 1.0),), quick=35, thorough=600, time_unit=None, sched_measure=None, technique=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe=observe, rule=rule,
                     components=components, assumptions=assumptions, level_note=level_note, ready=ready, variants=list(variants), quick=quick, thorough=thorough, technique=technique or "deterministic simulation with fault injection (seeded search)")
    if time_unit: PROPS[id]["time_unit"] = time_unit
    if sched_measure: PROPS[id]["sched_measure"] = sched_measure

MODEL_NOTE = "Seeded exploration, not exhaustive: says that no violation was found on the executed runs. Trusts the reference model (sim/core/doc.h), the simulated storage and the compiler/sanitizer."
A_STREAM = "storage honours the documented stream contract: errors are reported by an exception (or, for output streams, a short count), never by silently wrong data"

prop("C01", "New documents round-trip exactly",
  "For every sequence of valid add/write calls on the writer, however the data is delivered and chunked, closing the writer gives a document in which a fresh reader reports exactly the added sub-blocks, attachments and metadata: same coordinates, m-index, rectangles, pixel type, compression mode, pyramid type, names, GUIDs and every byte of every payload; nothing is missing, duplicated or invented; enumerations and filters report each matching item once, stop when the callback says so, and an index that does not exist is reported as such. Calls that add a duplicate or an out-of-bounds item, or whose arguments contradict each other, are rejected with an exception and leave no trace in the document. Reserved sizes for metadata and directories never change the content.",
  ["histories", "inputs", "configurations"], "all finite sequences of writer calls, all delivery forms (memory, pull-callbacks with any chunking, line-wise, strided), all reservation settings",
  "Tests write a handful of fixed documents; ordering, reservation sizes and chunking combine into unboundedly many histories.",
  [L + "CziWriter.cpp", L + "CziSubBlockDirectory.cpp", L + "CziAttachmentsDirectory.cpp", L + "CziParse.cpp", L + "CZIReader.cpp"],
  [("segment writing and deferred directories", L + "CziWriter.cpp: CCziWriter::Create/SyncAddSubBlock/Close, CWriterUtils"), ("duplicate/bounds detection", L + "CziSubBlockDirectory.cpp: CWriterCziSubBlockDirectory::TryAddSubBlock")],
  "document re-opened from the simulated storage through the public reader",
  "one run = one seeded history of writer calls followed by Close and a full comparison by a fresh reader; non-trivial: at least two items were stored",
  REAL_IO + [STUB_DISK], [A_STREAM], MODEL_NOTE + " Fault-free configuration: storage never fails here (C02/C03 cover failures).")

prop("C02", "Writer failures are reported, contained and survivable",
  "When a storage operation fails or writes short while a new document is written, the affected call reports an error and never success. A failed call has no effect on what other calls stored: every acknowledged sub-block and attachment is intact in the finished document, nothing from a failed call appears in it, and a failed call or Close can be repeated and succeeds once the fault is gone.",
  ["fault_sequences", "histories"], "all sequences of writer calls and all placements of write errors, torn writes, short writes and full-disk conditions in them, with any retry behaviour of the client",
  "Unit tests write to healthy memory streams; failure at each of the many write positions is never exercised.",
  [L + "CziWriter.cpp", L + "CziSubBlockDirectory.cpp", L + "CziAttachmentsDirectory.cpp"],
  [("error translation and write-count check", L + "CziWriter.cpp: CCziWriter::WriteToOutputStream"), ("directory registration order", L + "CziWriter.cpp: SyncAddSubBlock/SyncAddAttachment")],
  "result of each call; document re-opened after Close",
  "one run = one history of calls with seeded fault placement, client retries, Close until success, full comparison; non-trivial: at least one fault fired",
  REAL_IO + [STUB_DISK], [A_STREAM], MODEL_NOTE + " Metadata after a failed metadata write is indeterminate until the next successful one.")

prop("C03", "A crash while writing never yields a wrong document",
  "If the process dies at any point while a new document is being written, so that only a prefix of the issued writes (the last possibly torn) reaches the storage, then opening the remains either fails with an exception or gives a document in which either no sub-block or all added sub-blocks are listed, and every readable sub-block and attachment is exactly as it was added. Once Close has returned, all writes being on storage, everything is present.",
  ["crash_points", "histories"], "all crash points between and inside the writes of any writer history",
  "Tests never stop a writer half way; the number of write prefixes and torn positions is unbounded.",
  [L + "CziWriter.cpp", L + "CZIReader.cpp", L + "CziParse.cpp"],
  [("file header and directories written last", L + "CziWriter.cpp: CCziWriter::Finish"), ("reader validation of the segments", L + "CziParse.cpp")],
  "reader opened on the crash image",
  "one run = one writer history; every write of Close plus sampled earlier writes is a crash point, each once whole and once torn at a chosen byte; non-trivial: every run",
  REAL_IO + [STUB_DISK], ["writes reach the storage in the order issued (a prefix survives); no reordering by the storage"], MODEL_NOTE)

prop("C04", "Edit sessions behave like the reference model",
  "Any sequence of add, replace, remove, metadata and read calls on the reader-writer behaves like the same sequence on an abstract document: reads inside the session see the session's own writes, replaced items read back the new content, removed items disappear, untouched items stay byte-identical, and keys of existing items stay valid. After Close a fresh reader - and every later edit session - sees exactly the final abstract document; calls with an unknown key or with contradictory arguments are rejected without effect.",
  ["histories", "inputs"], "all finite sequences of edit calls over any number of consecutive sessions on documents produced by this library (including empty storage)",
  "Tests run a few scripted edits; the interaction of in-place replacement, growth, appended segments and directory re-use depends on the whole history.",
  [L + "CziReaderWriter.cpp", L + "CziSubBlockDirectory.cpp", L + "CziAttachmentsDirectory.cpp"],
  [("in-place replacement vs. append", L + "CziReaderWriter.cpp: ReplaceSubBlock/ReplaceAttachment"), ("deferred directories", L + "CziReaderWriter.cpp: Finish")],
  "reads inside the session and a fresh reader after Close",
  "one run = an initial document, 1-4 edit sessions of up to 16 calls with interleaved full comparisons; non-trivial: more than 4 edit calls",
  REAL_IO + [STUB_DISK], [A_STREAM], MODEL_NOTE)

prop("C05", "Edit session failures are reported and contained",
  "When storage reads or writes fail during an edit session, the affected call reports an error, and only the item that call was replacing, removing or overwriting may be affected: all other items stay exact inside the session and after Close. Opening, adding and closing can be repeated after a failure, a failed attempt leaves no duplicate or phantom item, and the closed document can be opened by a reader and edited again.",
  ["fault_sequences", "histories"], "all edit histories with all placements of read errors, write errors, torn/short writes and full disk",
  "Storage errors in the middle of a multi-write edit are not reproducible with unit tests on healthy streams.",
  [L + "CziReaderWriter.cpp", L + "CziWriter.cpp", L + "CziSubBlockDirectory.cpp"],
  [("error translation", L + "CziReaderWriter.cpp"), ("directory modification order", L + "CziReaderWriter.cpp: SyncAddSubBlock/RemoveSubBlock/ReplaceSubBlock")],
  "result of each call, session reads, fresh reader",
  "one run = one edit session under seeded faults with client retries, then comparison; non-trivial: at least one fault fired",
  REAL_IO + [STUB_DISK], [A_STREAM], MODEL_NOTE + " The target of a failed in-place operation is treated as indeterminate.")

prop("C06", "A crash before Close of an adding session loses nothing",
  "If the process dies at any point of an edit session that has only added sub-blocks and attachments and has not begun to close, the document on storage still opens and contains exactly what it contained before the session.",
  ["crash_points", "histories"], "all crash points (whole or torn writes) before Close of any add-only edit history",
  "The guarantee depends on where in the file every single write of the session goes; tests look only at completed sessions.",
  [L + "CziReaderWriter.cpp"],
  [("append-only placement of new segments", L + "CziReaderWriter.cpp: SyncAddSubBlock/SyncAddAttachment, nextSegmentInfo")],
  "reader opened on each crash image",
  "one run = one document, one add-only session, every write prefix and torn variant checked; non-trivial: every run with at least one write",
  REAL_IO + [STUB_DISK], ["writes reach the storage in the order issued"], MODEL_NOTE + " Close itself rewrites directories in place and is not covered (not crash-safe by design).")

prop("C07", "Reads from failing storage are exact or reported",
  "When storage reads fail, return fewer bytes than requested, or the document is truncated, every reader operation (open, enumerate, read sub-block/attachment/metadata, decode, composite) either reports an error or returns exactly what the document contains: never partial, stale or wrong data. A failed open or read leaves no trace: the same reader object can be opened again (also on another document) and then works exactly, nothing of a previously opened document shows through, and sub-blocks, attachments and bitmaps obtained earlier keep their content.",
  ["fault_sequences", "histories"], "all sequences of reader calls over several documents and reader objects, and all placements of read errors, short reads and truncation in them",
  "Tests read healthy files; which of the many reads of an operation fails, and what is done with the object afterwards, is unbounded.",
  [L + "CZIReader.cpp", L + "CziParse.cpp", L + "CziSubBlockDirectory.cpp", L + "SingleChannelAccessorBase.cpp", L + "subblock_cache.cpp"],
  [("read-count checks and error translation", L + "CziParse.cpp: ReadSubBlock/ReadAttachment/ReadMetadataSegment/ParseThroughDirectoryEntries"), ("state after a failed Open", L + "CZIReader.cpp: Open")],
  "results of the public reader, accessor and cache calls",
  "one run = 1-3 generated image documents, a seeded sequence of reader calls under read faults, then faults stop and everything is compared again; non-trivial: a fault fired or a document was truncated",
  REAL_IO + ["real: zstd and JPEG-XR decoders, tile accessors, sub-block cache", STUB_DISK], ["an input stream reports errors by an exception or a short count"], MODEL_NOTE)

prop("C08", "Damaged documents are refused or read safely",
  "For every damaged document - flipped bits, arbitrary values in any header, size, position or count field, overwritten or duplicated regions, truncation, damaged payloads and XML - each call of the reader, the accessors, the metadata and attachment parsers and the reader-writer either succeeds or throws a std::exception. No call crashes, terminates the program, accesses memory outside of its buffers, loops without bound, or reports more data than it provides. Requests for absurd amounts of memory end in an exception. (The bit-stream parser inside the vendored JPEG-XR codec is not part of this statement.)",
  ["inputs", "histories"], "all byte strings in the neighbourhood of valid documents, all call sequences on them",
  "Tests contain a handful of broken files; the reachable combinations of field values are unbounded.",
  [L + "CziParse.cpp", L + "CziSubBlockDirectory.cpp", L + "CreateBitmap.cpp", L + "decoder_zstd.cpp", L + "SubblockAttachmentAccessor.cpp", L + "CziReaderWriter.cpp"],
  [("validation of sizes and positions", L + "CziParse.cpp"), ("decoder input checks", L + "decoder_zstd.cpp, CreateBitmap.cpp")],
  "outcome of every public call; AddressSanitizer, bounded I/O and bounded allocation as oracles",
  "one run = one generated document with 1-6 storage corruptions (structure-aware and blind), then the whole public API is exercised on it, or one document whose XML breaks the rules of the schema with every metadata query; non-trivial: every run",
  REAL_IO + ["real: zstd decoder, pugixml, accessors, metadata; JPEG-XR codec real for payloads the encoder produced, a decoder error otherwise", STUB_DISK], ["requests above 48 MB fail (simulated memory limit)", "the disk is full 2 MB beyond the document"], MODEL_NOTE + " Undefined behaviour other than memory errors is not checked.")

prop("C09", "Running out of memory is reported and contained",
  "When memory allocations fail inside any call of the writer, the reader-writer, the reader, the accessors, the encoders and decoders or the cache, the call either still succeeds with the exact result or throws; it never crashes, corrupts memory or returns a wrong result. The failed call has no other effect: acknowledged items stay intact, an item whose adding failed is not registered, the call can be repeated once memory is available, documents and objects stay usable, and after releasing all objects nothing allocated by the library is left.",
  ["fault_sequences", "histories"], "all call histories and all placements of failing allocations in them",
  "Tests never let an allocation fail; every call has dozens of allocation sites.",
  [L + "CziWriter.cpp", L + "CziReaderWriter.cpp", L + "CZIReader.cpp", L + "CziParse.cpp", L + "CziSubBlockDirectory.cpp", L + "subblock_cache.cpp", L + "BitmapOperations.cpp", L + "zstdCompress.cpp", L + "jxrlibcompress.cpp"],
  [("ownership of raw buffers", L + "CZIReader.cpp: ReadSubBlock/ReadAttachment/ReadMetadataSegment"), ("directory updates", L + "CziSubBlockDirectory.cpp: TryAddSubBlock")],
  "results of the calls, re-opened documents, memory sanitizer, live allocations after everything was released",
  "one run = one writing, editing, reading or compressing history; in randomly chosen calls the k-th allocation (and possibly the following ones) fails; non-trivial: at least one allocation failed",
  REAL_IO + ["real: zstd (also its own allocations fail), accessors, cache", "stub: malloc/calloc/realloc/aligned_alloc/operator new of everything linked statically (fail on demand)", STUB_DISK], ["allocations inside the vendored JPEG-XR codec do not fail", "XML building (GetPreparedMetadata) is not run out of memory: pugixml reports it silently"], MODEL_NOTE)

prop("C12", "Composites show exactly what the document contains",
  "A composite made by the tile accessor, the pyramid-layer accessor or the scaling accessor contains, for every pixel, the pixel of the topmost sub-block (by m-index; or by file order where sorting is off) that is selected by the plane, region, scene-filter and layer and whose valid-pixel-mask (in mask-aware mode) covers it (converted to the requested pixel type where that differs from the sub-block's), and the background colour where there is none (or, if no background is requested, what a supplied destination contained); scaled pixels come from that sub-block's neighbourhood. The result does not depend on whether a sub-block cache is used, on what the cache already holds or has evicted, on the options that only concern performance (visibility-check optimization), on whether the destination is supplied, on previous operations, or on other threads composing from the same reader and cache at the same time. With the option to draw tile borders, the edge of the visible part of each sub-block is black and everything else is unchanged. A destination whose size is not that of the scaled composite is refused and left alone. A plane coordinate that does not denote one plane of the document (a dimension missing, surplus, or outside its bounds, or a scene) is refused.",
  ["histories", "configurations", "inputs", "schedules"], "all documents, queries, cache histories and interleavings of concurrent queries",
  "Cache contents, masks, overlaps, scenes and options combine; tests compare a few fixed composites.",
  [L + "SingleChannelTileAccessor.cpp", L + "SingleChannelScalingTileAccessor.cpp", L + "SingleChannelPyramidLevelTileAccessor.cpp", L + "SingleChannelAccessorBase.cpp", L + "subblock_cache.cpp", L + "BitmapOperations.cpp"],
  [("sub-block selection and ordering", L + "SingleChannelTileAccessor.cpp: GetAllSubBlocks"), ("cache lookup incl. masks", L + "SingleChannelAccessorBase.cpp: GetSubBlockDataIncludingMaskForSubBlockIndex"), ("visibility optimization", L + "SingleChannelAccessorBase.cpp: CheckForVisibility")],
  "bitmaps returned by the accessors, compared with an independent painter (sim/core/image.h)",
  "one run = one generated image document (overlapping tiles, masks, scenes, pyramid layers, five encodings), a seeded sequence of queries sharing a cache with interleaved pruning; non-trivial: at least two tiles and one composite",
  REAL_IO + ["real: accessors, cache, bitmap operations, decoders", STUB_DISK], ["scaled pixels are checked against the neighbourhood admissible for nearest-neighbour resampling, not for one particular rounding"], MODEL_NOTE, variants=(("fault", 0.7), ("sched", 0.3)))

SCHED_NOTE = "Seeded exploration of interleavings, not exhaustive: every instrumented memory access and synchronisation operation is a potential preemption point, chosen by the seed under several policies. Trusts the scheduler/race-detector runtime (sim/sched/tsrt.cpp), the reference model and the compiler instrumentation."
REAL_SCHED = ["real: libCZI and vendored codecs, compiled with access instrumentation, unmodified sources", "real: std::thread/mutex/atomic/call_once of the C++ library", "stub: the thread scheduler (one thread runs at a time, chosen by the seed); happens-before race detector", "stub: storage = in-memory disk with latency and read errors"]

prop("C10", "A reader can be shared by concurrent threads",
  "Any number of threads may call methods of one opened reader (reading sub-blocks, attachments and metadata, enumerating (also reading from within the callback of an enumeration), querying statistics, composing through accessors it creates) at the same time: for every interleaving each call returns exactly what it would return alone, or reports an error only if the storage failed under that very call; there are no data races or deadlocks. Close may be called while other calls execute: those calls complete correctly or report an error, every call begun after Close returned reports an error for anything that needs the stream, and the stream is released once no call executes any more, not earlier.",
  ["schedules", "fault_sequences"], "all interleavings of reader calls issued by several threads, with any storage latency, any placement of read errors and Close at any point",
  "Tests exercise a reader from one thread, or let the OS pick one of astronomically many interleavings.",
  [L + "CZIReader.cpp", L + "CZIReader.h", L + "CziSubBlockDirectory.cpp", L + "CziSubBlockDirectory.h", L + "CziAttachmentsDirectory.cpp"],
  [("operational state and Close", L + "CZIReader.cpp: CCZIReader::Close/ThrowIfNotOperational"), ("lazily sorted pyramid statistics", L + "CziSubBlockDirectory.h: CSbBlkStatisticsUpdater")],
  "results of the calls compared with the abstract document, race detector, lifetime of the stream",
  "one run = one document, 2-4 threads with seeded programs under a seeded scheduler; non-trivial: at least two calls overlapped",
  REAL_SCHED, [A_STREAM, "objects obtained from the reader (sub-blocks, accessors) are used by the thread that obtained them"], SCHED_NOTE, variants=(("sched", 1.0),), time_unit="scheduling points (potential preemptions)", sched_measure="distinct interleavings (hash of the scheduling decisions)")

prop("C11", "The sub-block cache is a linearizable LRU cache",
  "Every concurrent history of Add, Get, Prune and GetStatistics on one sub-block cache is equivalent to some order of the same calls on a sequential least-recently-used cache: Get returns the item last added for the key or nothing if it was pruned, never another item; Prune leaves the cache within the requested limits by removing least recently used items and no others; statistics queried together are those of one moment, and the reported size and count always match the content. Items leave no reference behind, and an Add that fails for lack of memory changes nothing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of cache calls by several threads and all placements of allocation failures",
  "LRU order and size accounting depend on the whole history and on the interleaving; tests check sequential scripts.",
  [L + "subblock_cache.cpp", L + "subblock_cache.h"],
  [("add / replace accounting", L + "subblock_cache.cpp: SubBlockCache::Add"), ("pruning", L + "subblock_cache.cpp: SubBlockCache::PruneByMemoryUsageAndElementCount"), ("statistics", L + "subblock_cache.cpp: SubBlockCache::GetStatistics")],
  "recorded call/return history, checked for linearizability against an executable LRU model (sim/core/lincache.h); reference counts",
  "one run = 2-4 threads with up to 6 cache calls each (or one thread with allocation failures); non-trivial: calls overlapped, or an allocation failed",
  REAL_SCHED, ["the recency rank of an Add may be taken before the Add takes effect", "statistics queried one at a time are not a snapshot"], SCHED_NOTE, variants=(("sched", 0.75), ("fault", 0.25)), time_unit="scheduling points / cache calls", sched_measure="distinct interleavings (hash of the scheduling decisions) or fault sequences")

prop("C13", "File and memory streams deliver exact bytes or an error",
  "Every stream object the library offers for local storage - default and factory-made file input streams (pread and C-runtime), output stream, input-output stream, memory stream - delivers for every offset and size, including offsets beyond 4 GiB, exactly the bytes the storage holds there and exactly as many as exist (fewer only at the end, where nothing is thrown), from any number of threads at once. Interrupted and partial system calls are invisible to the caller; any other error of the operating system becomes an exception, never missing or wrong data reported as success. A write is acknowledged only for bytes stored at their offset and touches nothing else. Opening never changes an existing file, except that an output stream opened with permission to overwrite empties it; without that permission an existing file is refused, also if another process creates it at that moment. Every descriptor is closed exactly once, whatever its number and whether or not opening or a transfer failed. Documents written, edited and read through files fulfil the same guarantees as on any other stream.",
  ["inputs", "fault_sequences", "schedules", "histories"], "all request sequences on one or several streams, all placements of EINTR, partial transfers, EIO, ENOSPC, failed opens and concurrent file creation, all interleavings of concurrent requests",
  "Tests run on a healthy local file system, on which system calls are never interrupted, never transfer partially and never fail.",
  [L + "StreamImpl.cpp", L + "StreamImpl.h", L + "StreamsLib/preadfileinputstream.cpp", L + "StreamsLib/simplefileinputstream.cpp", L + "StreamsLib/streamsFactory.cpp", L + "libCZI_Lib.cpp"],
  [("positioned transfer loops", L + "StreamImpl.cpp, StreamsLib/preadfileinputstream.cpp: Read/Write"), ("serialised seek+read", L + "StreamsLib/simplefileinputstream.cpp: SimpleFileInputStream::Read"), ("open flags", L + "StreamImpl.cpp: COutputStreamImplPwrite, CInputOutputStreamImplPreadPwrite")],
  "every Read/Write compared with the content of the simulated file; descriptor table of the simulated file system; documents compared with the model",
  "one run = one seeded sequence of requests, of opening and releasing streams, or one document workload through files; or 2-4 threads on one stream under the seeded scheduler; non-trivial: an error was injected, several streams were opened, or requests overlapped",
  ["real: libCZI stream classes and stream factory (Src/libCZI/StreamImpl.cpp, StreamsLib, unmodified)"] + REAL_IO + ["stub: file system = in-memory files behind open/pread/pwrite/fopen/fread/... (linker --wrap, sim/core/simfs.cpp)", "stub in the concurrent part: thread scheduling"],
  ["an fread interrupted by a signal is an error of the C library (it is reported as one)", "close() errors cannot be reported by a destructor and are not injected", "Windows stream classes are not compiled on this platform"], MODEL_NOTE, variants=(("fault", 0.7), ("sched", 0.3)), time_unit="simulated system calls / scheduling points", sched_measure="distinct fault sequences or interleavings")

prop("C14", "HTTP streams deliver exact bytes or an error",
  "A stream on an HTTP resource delivers for every offset and size exactly the bytes the resource holds there, whatever the chunks in which they arrive and from any number of threads at once; beyond the end it reports zero bytes. When the connection is refused, times out, stalls or breaks, when the server answers with an error status, a redirection that is not followed, or ignores the requested range, the request fails with an exception or delivers the right bytes - bodies of error responses and bytes from another position are never passed off as data - and a response that ends early is never reported longer than it was. Nothing is ever written beyond the caller's buffer, a failure does not affect later requests, the connection handle is never used by two requests at once, and every handle is released. Every request is made with the connection properties (proxy, user agent, credentials, cookie, certificates, time-outs, redirections) the stream was created with. Documents read over HTTP are exact or the operation reports the failure.",
  ["fault_sequences", "inputs", "schedules"], "all request sequences, chunkings and placements of network and server faults, all interleavings of concurrent requests",
  "The network fails at moments no test chooses; tests use no HTTP server at all.",
  [L + "StreamsLib/curlhttpinputstream.cpp", L + "StreamsLib/curlhttpinputstream.h", L + "StreamsLib/streamsFactory.cpp"],
  [("range requests and response check", L + "StreamsLib/curlhttpinputstream.cpp: CurlHttpInputStream::Read"), ("bounded delivery into the caller's buffer", L + "StreamsLib/curlhttpinputstream.cpp: CurlHttpInputStream::WriteData")],
  "every Read compared with the resource held by the simulated server; handle table of the simulated libcurl; documents compared with the model",
  "one run = one seeded sequence of range requests or one document reading workload over a misbehaving network, or 2-4 threads on one stream under the seeded scheduler; non-trivial: a fault was injected or requests overlapped",
  ["real: libCZI HTTP stream class and stream factory (Src/libCZI/StreamsLib, unmodified)"] + REAL_IO + ["stub: libcurl, network and HTTP server (sim/fault/curl_stub.cpp)", "stub in the concurrent part: thread scheduling"],
  ["the resource does not change while it is read", "libcurl reports truncated bodies of responses with a known length"], MODEL_NOTE, variants=(("fault", 0.7), ("sched", 0.3)), time_unit="simulated network events (a timeout counts 30000) / scheduling points", sched_measure="distinct fault sequences or interleavings")

prop("C15", "Bitmap locks always balance",
  "Lock, Unlock and GetLockCount of a bitmap (pixel or bitonal) used by several threads behave like an atomic counter in every interleaving: the count is never negative or lost, a superfluous Unlock is reported by an exception in the thread that made it (or in whichever Unlock finds the count at zero) and changes nothing. Every library operation on bitmaps (composition, accessors, multi-channel composition, resizing, filling, hashing, mask operations) unlocks each bitmap exactly as often as it locked it, also when the operation fails - because a callback or a Lock throws, arguments are rejected, memory runs out or storage fails - and touches pixel memory only while it holds the lock and only inside it.",
  ["schedules", "fault_sequences"], "all interleavings of lock operations; all placements of failures inside bitmap operations",
  "Balanced locking on each error path and under contention is invisible to tests that look at pixels of successful calls.",
  [L + "bitmapData.h", L + "libCZI_Pixels.h", L + "SingleChannelTileCompositor.cpp", L + "MultiChannelCompositor.cpp", L + "BitmapOperations.cpp", L + "BitmapOperationsBitonal.cpp", L + "libCZI_Pixels.cpp"],
  [("lock counter", L + "bitmapData.h: CBitmapDataBase::Lock/Unlock"), ("scoped lockers", L + "libCZI_Pixels.h: ScopedBitmapLocker"), ("mask operations", L + "libCZI_Pixels.cpp: BitonalBitmapOperations")],
  "lock counts and a linearizability check of the counter; client-supplied bitmaps whose memory is poisoned while unlocked",
  "one run = 2-4 threads on one bitmap under the seeded scheduler, or a sequence of bitmap operations with a seeded failure in each; non-trivial: calls overlapped, or a fault fired and the call failed",
  REAL_SCHED + ["stub: client bitmaps with lock failures (fault variant, AddressSanitizer poisoning)"], ["bitmaps supplied by the client obey the interface"], SCHED_NOTE, variants=(("fault", 0.5), ("sched", 0.5)), time_unit="scheduling points / calls", sched_measure="distinct interleavings or fault sequences")

prop("C16", "The C interface is safe, leak-free and says the same as the library",
  "Through the C interface (libCZIAPI) every call reports its outcome by its return code and nothing else: no exception ever leaves an exported function, and whatever fails - storage or a client's stream function at any moment, an allocation, a missing or unsuitable argument, a handle of another type, an index that does not exist, a call at the wrong time - gives an error code, leaves no handle or memory behind and changes nothing, while a valid call without fault succeeds. Successful calls return exactly what the document holds: sub-blocks, attachments, metadata, statistics, document information, display settings and composites equal the written content, and what is written through the C interface is what a reader finds. Buffers are never overrun and their required size is always reported. Objects may be released in any order and stay usable until released; the functions of an external stream are called with the client's parameters only, never after its close function, which is called exactly once when the last object using the stream has gone, and error messages and memory handed over are freed. After every object is released nothing is left.",
  ["histories", "inputs", "fault_sequences"], "all sequences of calls on any number of live objects, all orders of release, all placements of stream errors and allocation failures, any invalid argument",
  "The C interface has no tests at all; handle lifetimes, ownership on error paths and translation of every failure into a code are decided by the order of calls and by where a fault hits.",
  ["Src/libCZIAPI/src/libCZIApi.cpp", "Src/libCZIAPI/src/parameterhelpers.cpp", "Src/libCZIAPI/src/sharedptrwrapper.h", "Src/libCZIAPI/inc/libCZIApi.h", L + "CziMetadataDocumentInfo.cpp", L + "CziMetadataDocumentInfo2.cpp", L + "CziDisplaySettings.cpp"],
  [("handles", "Src/libCZIAPI/src/sharedptrwrapper.h: SharedPtrWrapper"), ("external streams", "Src/libCZIAPI/src/libCZIApi.cpp: InputStreamWrapper, OutputStreamWrapper"), ("conversion of structures and JSON", "Src/libCZIAPI/src/parameterhelpers.cpp")],
  "return codes, output arguments and memory of every call; callbacks of external streams; documents re-opened with the C++ reader; allocation table",
  "one run = one client of the C interface writing a document, reading one or two documents, or querying document information and display settings, with seeded faults and misuse; non-trivial: several calls succeeded",
  ["real: libCZIAPI and the library below it (Src/libCZIAPI, Src/libCZI, unmodified)", "real: zstd, JxrDecode, rapidjson, pugixml", STUB_DISK, "stub: external streams (client callbacks), files (sim/core/simfs.cpp)"],
  [A_STREAM, "handles are not used after their release (undefined for the C interface)", "in calls that run rapidjson only operator new fails (rapidjson does not check malloc)", "numbers beyond the range of double in the metadata are not generated"], MODEL_NOTE)

prop("C17", "First use and independent objects never interfere",
  "Threads that use the library at the same time on objects of their own - readers, writers, reader-writers, encoders, decoders, metadata builders, accessors, caches, stream classes, utilities and handles of the C interface - never influence each other, including when these are the very first uses of the library in the process: for every interleaving each thread gets the results it would get alone, process-wide objects (decoders, site, stream classes) are initialised exactly once and completely before use, and there is no data race or deadlock.",
  ["schedules", "histories"], "all interleavings of first and later uses by several threads on separate objects",
  "First use happens once per process; a test process meets one interleaving of it at most.",
  [L + "libCZI_Site.cpp", L + "StreamsLib/streamsFactory.cpp", L + "decoder.cpp", L + "decoder_zstd.cpp", L + "zstdCompress.cpp", L + "jxrlibcompress.cpp", L + "CziMetadataBuilder.cpp"],
  [("lazy creation of site and decoders", L + "libCZI_Site.cpp: GetSite, GetDecoder"), ("one-time initialisation of stream classes", L + "StreamsLib/streamsFactory.cpp: StreamsFactory::Initialize")],
  "results of every thread compared with its own model; race detector",
  "one run = a fresh process image (forked before any use of the library), 2-4 threads with seeded programs; non-trivial: calls overlapped",
  REAL_SCHED + ["stub: libcurl"], ["SetSiteObject is not called concurrently"], SCHED_NOTE, variants=(("sched", 1.0),), time_unit="scheduling points (potential preemptions)", sched_measure="distinct interleavings (hash of the scheduling decisions)")

prop("C18", "Stored documents have a well-formed, disjoint segment layout",
  "After any history of writing or editing, including calls that failed, the finished file is structurally sound: all segments reachable from the file header carry the right identifier, lie inside the file, are 32-byte aligned, do not overlap, have a used size within their allocated size, and their contents fit the used size; each directory entry agrees with the header of the sub-block or attachment it refers to. After histories without failures, walking the segments one after another from the start of the file reaches every referenced segment.",
  ["histories", "fault_sequences"], "all writer and edit histories, with and without storage faults",
  "Overlap and chain properties depend on the whole allocation history of the file; readers used in tests follow the directories only and never notice.",
  [L + "CziWriter.cpp", L + "CziReaderWriter.cpp", L + "CziStructs.h"],
  [("segment allocation", L + "CziWriter.cpp: GetNextSegmentPos/next-segment bookkeeping"), ("allocated/used size fields", L + "CziWriter.cpp: CWriterUtils")],
  "bytes on the simulated disk, decoded by an independent parser",
  "one run = one writer or edit history, then the raw bytes are parsed independently of the library; non-trivial: at least one item stored",
  REAL_IO + [STUB_DISK, "independent layout parser (sim/core/doc.h: verify_layout)"], [A_STREAM], MODEL_NOTE)

prop("C19", "Statistics agree with the content at every moment",
  "The statistics (count, bounding boxes overall, per scene and for layer 0, dimension bounds, m-index range) and pyramid statistics reported by the writer, by an edit session at any moment and by a reader are exactly those computed from the set of sub-blocks the document contains at that moment, also after removals, replacements, rejected calls and failed calls, and independent of the order in which the two kinds of statistics are queried; the metadata the writer prepares states the same sizes and, for each channel, a pixel type that its sub-blocks have.",
  ["histories", "fault_sequences"], "all histories of calls with statistics queried at any moment",
  "Statistics are maintained incrementally with deferred consolidation, so an error shows only for particular orders of edits and queries.",
  [L + "CziSubBlockDirectory.cpp", L + "CziReaderWriter.cpp", L + "CziWriter.cpp"],
  [("incremental statistics", L + "CziSubBlockDirectory.cpp: CSbBlkStatisticsUpdater"), ("recreation after edits", L + "CziSubBlockDirectory.cpp: CReaderWriterCziSubBlockDirectory::EnsurePyramidStatistics")],
  "GetStatistics / GetPyramidStatistics of all three objects",
  "one run = one history with statistics compared to the model after (randomly chosen) steps; non-trivial: at least two sub-blocks",
  REAL_IO + [STUB_DISK], [A_STREAM], MODEL_NOTE)

NA = [
 ("P01", "Image codecs decode exactly what was encoded", "Decoding a sub-block compressed with a lossless codec (zstd, with and without hi/lo-byte packing; JPEG-XR lossless) gives back exactly the pixels that were compressed, for every pixel type and size.",
  ["inputs"], "all bitmaps", "sampled inputs only", [L + "decoder_zstd.cpp", L + "zstdCompress.cpp", L + "decoder.cpp"], [("codecs", L + "decoder_zstd.cpp")],
  "Pure function of one input buffer: no concurrency, time, I/O or multi-party behaviour that a simulator could schedule or fault (its allocation failures are covered by the allocation-failure property)."),
 ("P02", "Multi-channel compositing maths is correct", "Composing several channel bitmaps with gradation curves, tinting and black/white points gives, for every pixel, the documented weighted sum with saturation.",
  ["inputs"], "all bitmaps and channel settings", "sampled inputs only", [L + "MultiChannelCompositor.cpp"], [("compositor", L + "MultiChannelCompositor.cpp")],
  "Pure arithmetic over caller-supplied buffers; no schedule, time, I/O or fault dimension."),
 ("P03", "Metadata XML is interpreted faithfully", "The structured document information (dimensions, channels, scaling, display settings) reported for a metadata XML is exactly what the XML says, and XML produced by the metadata builder reads back the same.",
  ["inputs"], "all metadata documents", "sampled inputs only", [L + "CziMetadata.cpp", L + "CziMetadataBuilder.cpp", L + "CziDisplaySettings.cpp"], [("XML parsing", L + "XmlNodeWrapper.h")],
  "Pure function from one string to values; nothing for a simulator to schedule or fault."),
 ("P04", "Textual coordinates and index sets parse and format consistently", "Formatting a dimension coordinate or index set to text and parsing it again gives the same value, and malformed text is rejected.",
  ["inputs"], "all strings", "sampled inputs only", [L + "libCZI_DimCoordinate.cpp", L + "IndexSet.cpp", L + "utilities.cpp"], [("parsers", L + "IndexSet.cpp")],
  "Pure function of one string."),
]
