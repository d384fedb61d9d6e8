#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "HashDBM behaves as an exact key-value map under every tuning and history",
  "For any sequence of public operations on a file hash database (single and multi-record updates and lookups, Append, CompareExchange, Increment, Rekey, ProcessFirst/Each/Multi, PopFirst, PushLast, Clear, Rebuild, Synchronize, close and reopen) under any tuning (update mode, offset width, alignment, bucket count, CRC, compression or cipher, file class), every returned status and value, the record count and the full contents equal those of an in-memory map given the same operations. "
  "Opaque metadata and the database type survive reopening, Synchronize, Clear and Rebuild, and a read-only open never changes the file.",
  ["inputs", "histories", "configurations"],
  "all operation sequences x all keys and values (empty, binary, multi-kilobyte, colliding) x all tuning parameters and file classes x any placement of Rebuild/Synchronize/reopen",
  "Unit tests run a few fixed scripts per tuning with small ASCII keys; padding, free-block reuse, chain surgery, child offsets, tombstones and rebuild in combination are reached by chance only.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_hash.h", "tkrzw_dbm.h", "tkrzw_dbm_common_impl.cc"],
  [("record insertion, in-place overwrite, relocation and removal", "tkrzw_dbm_hash.cc: ProcessImpl"),
   ("record (de)serialisation", "tkrzw_dbm_hash_impl.cc: HashRecord"),
   ("free block pool", "tkrzw_dbm_hash_impl.cc: FreeBlockPool"),
   ("rebuilding", "tkrzw_dbm_hash.cc: RebuildImpl, ImportFromFile*")],
  [("bucket table and record chains", "the map itself", "tkrzw_dbm_hash.cc"), ("num_records_/eff_data_size_", "reported count and size", "tkrzw_dbm_hash.cc")],
  ["HashDBM public API"])

p("C02", "TreeDBM behaves as an exact ordered map under every tuning and history",
  "For any sequence of public operations on a file tree database under any page size, branch count, cache size, page update mode, record tuning and key comparator, every returned status and value, the count and the full contents equal those of an ordered in-memory map using that comparator, and a forward or backward scan yields every record exactly once in comparator order. "
  "This includes states reached by page splits, merges and removals, cache eviction, Rebuild, Synchronize, Clear and close/reopen, where the comparator and tuning that are stored with the file come back.",
  ["inputs", "histories", "configurations"],
  "all operation sequences x keys clustered to force splits/merges at every level x page/branch/cache sizes x comparators x reopen/rebuild points",
  "Tests use a few page sizes with sequential keys; root collapse, merging of first/last leaves, separator removal and eviction in the middle of a reorganisation need particular shapes.",
  ["tkrzw_dbm_tree.cc", "tkrzw_dbm_tree_impl.cc", "tkrzw_dbm_tree.h", "tkrzw_key_comparators.h"],
  [("page search and update", "tkrzw_dbm_tree.cc: ProcessImpl, SearchTree"), ("divide/merge", "tkrzw_dbm_tree.cc: ReorganizeTree, DivideNodes, MergeNodes"),
   ("page cache", "tkrzw_dbm_tree.cc: LoadLeafNode, FlushLeafCacheSlot"), ("page format", "tkrzw_dbm_tree.cc: SaveLeafNode/LoadLeafNode, tkrzw_dbm_tree_impl.cc")],
  [("leaf and inner nodes, prev/next links", "ordered contents", "tkrzw_dbm_tree.cc")], ["TreeDBM public API and iterators"])

p("C03", "SkipDBM batches updates and exposes exactly the merged, ordered contents",
  "In a file skip database, lookups and scans always answer from the state of the last Synchronize/open while updates accumulate; Synchronize (or Close) then makes visible exactly the stable merge of the previous contents with the pending updates in insertion order, after the chosen reducer, in ascending key order, for any step unit, level, offset width, sort-memory and cache size. "
  "Lookup by key, GetByIndex, forward and backward iteration, jumps, MergeSkipDatabase, Revert and reopening all agree with that ordered sequence; the counters agree too whenever nothing is pending (with insert_in_order they may already include pending updates).",
  ["inputs", "histories", "configurations"],
  "all batches of Set/Remove/duplicate keys x reducers x in-order and at-random building x skip parameters x sort memory small enough to spill to many temporary files",
  "Tests use one or two batch shapes; skip links at level boundaries, spilled merges and duplicates across batches are input dependent.",
  ["tkrzw_dbm_skip.cc", "tkrzw_dbm_skip_impl.cc", "tkrzw_dbm_skip.h"],
  [("record sorter and spill files", "tkrzw_dbm_skip_impl.cc: RecordSorter"), ("finish/merge storage", "tkrzw_dbm_skip.cc: FinishStorage"),
   ("skip record links", "tkrzw_dbm_skip_impl.cc: SkipRecord"), ("reducers", "tkrzw_dbm_skip.h: ReduceTo*")], (), ["SkipDBM public API"])

p("C04", "On-memory databases are exact maps and reload exactly what they saved",
  "For any sequence of public operations, TinyDBM, BabyDBM, StdHashDBM and StdTreeDBM return exactly the statuses, values, counts and contents of an in-memory map (ordered ones in comparator order, forward and backward). "
  "After Synchronize or Close of a database bound to a file, opening that file again yields exactly the contents at that moment, for any keys and values.",
  ["inputs", "histories", "configurations"],
  "all operation sequences x arbitrary binary keys/values x bucket counts and comparators x file classes x sync/close/reopen points",
  "Tests exercise few key shapes and tiny sizes; BabyDBM page division/merging and serialized record chains depend on sizes and order.",
  ["tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_common_impl.cc"],
  [("TinyDBM chains and rebuild", "tkrzw_dbm_tiny.cc"), ("BabyDBM page reorganisation", "tkrzw_dbm_baby.cc"), ("flat record export/import", "tkrzw_dbm_*.cc: ImportRecords/ExportRecords; tkrzw_dbm_common_impl.cc")],
  (), ["DBM public API"])

p("C05", "CacheDBM stays within capacity, evicts least-recently-used, never returns stale",
  "A CacheDBM never holds more records (or, when a memory capacity is set, more estimated memory) than its capacity, which is shared out to and rounded up within its 32 internal slots, and a lookup either reports absence or returns exactly the last value stored for that key. "
  "Within one internal slot the evicted record is always the least recently used one, recency being refreshed by reads and writes, removed records never come back, and Count/iteration agree with what lookups can find; Synchronize/Close and reopen reload the same surviving records.",
  ["inputs", "histories", "configurations"],
  "all access histories x record and memory capacities x key distributions",
  "Tests check a handful of insertions against the total capacity; recency order after mixed reads, updates, removals and rebuilds is a history property.",
  ["tkrzw_dbm_cache.cc", "tkrzw_dbm_cache.h"],
  [("per-slot LRU list and hash chains", "tkrzw_dbm_cache.cc: CacheSlot"), ("eviction on saturation", "tkrzw_dbm_cache.cc: CleanUp/RemoveLRU paths")], (), ["CacheDBM public API"])

p("C06", "Iterators visit every stable record once and navigate ordered keys exactly",
  "On any database class, an iterator over a quiescent database visits every record exactly once with its exact value, and on ordered classes First, Last, Jump, JumpLower, JumpUpper (inclusive or not), Next and Previous move exactly as on a sorted map, including after updates and removals made through the iterator or beside it. "
  "While other threads add and remove other records, an iterator yields only records that existed at some time during the scan, each with a value it really had, and a forward scan visits every record that is present throughout exactly once, in order on ordered classes (a backward one at least once; the std-based StdHashDBM and StdTreeDBM promise this only when no other thread removes the record at hand or rehashes the map); an iterator of a closed database fails gracefully instead of misbehaving.",
  ["inputs", "histories", "schedules"],
  "all database classes x contents x navigation sequences interleaved with mutations x concurrent writers",
  "Tests iterate small fixed databases; leaf boundaries, removed current records and concurrent splits are reached only by particular shapes and schedules.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_shard.cc"],
  [("iterator implementations", "tkrzw_dbm_*.cc: *IteratorImpl")], (), ["DBM::Iterator public API"])

p("C07", "Concurrent single-record operations are linearizable in every database class",
  "When many threads use one database object, every history of single-record operations (Get, Set, Set without overwrite, Remove, Append, CompareExchange, Increment, Process) on each key is linearizable against a sequential map, for every database class and adapter, also while other threads run Synchronize, iterate, or (file hash/tree) Rebuild the same database. "
  "Once the threads have stopped, the surviving contents and the record count are those of the linearized history.",
  ["schedules", "histories", "configurations"],
  "all interleavings of threads on few hot keys x database classes and tunings x concurrent maintenance",
  "Thread tests in the suite check only final consistency of commutative work or nothing; lost updates and stale reads need particular interleavings.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc", "tkrzw_thread_util.h"],
  [("record/page/slot reader-writer locks", "tkrzw_thread_util.h: HashMutex, SlottedMutex, SpinSharedMutex"), ("processor runs under the lock", "tkrzw_dbm_*.cc: Process*")],
  (), ["DBM public API, call/return events at the client"])

p("C08", "Multi-record operations are atomic and isolated",
  "ProcessMulti, CompareExchangeMulti and Rekey take effect as one step: no concurrent reader or writer of the involved keys ever observes or interleaves with an intermediate state, a failed condition changes nothing, and keys may repeat or collide arbitrarily without deadlock. "
  "(ShardDBM isolates ProcessMulti and Rekey among themselves, and CompareExchangeMulti from all operations.) "
  "A ProcessEach pass over HashDBM, TinyDBM, StdHashDBM or StdTreeDBM sees one consistent state of all records, Rebuild and Synchronize notwithstanding, and concurrent PopFirst/ProcessFirst consumers get each record pushed by PushLast exactly once.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of multi-key transactions, readers and full passes on every database class, sharded adapters included where they promise it",
  "The suite has no isolation oracle; conflicts need simultaneous transactions on overlapping keys.",
  ["tkrzw_dbm.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_shard.cc", "tkrzw_thread_util.h"],
  [("multi-bucket ordered locking", "tkrzw_thread_util.h: HashMutex::LockMulti, ScopedHashLockMulti"), ("leaf locking in order", "tkrzw_dbm_tree.cc/tkrzw_dbm_baby.cc: ProcessMulti")], (), ["DBM public API"])

p("C09", "Concurrent use of the public API is free of data races and deadlocks",
  "Any mixture of concurrent calls documented as thread-safe on one database, adapter, file, queue, index or async object (lookups, updates, iteration by separate iterators, counting, inspection, Synchronize, Rebuild, Clear, and the accessors of size, path, timestamp and health) executes without data races, use of freed state, or deadlock. "
  "Every such workload terminates.",
  ["schedules", "programs"],
  "all interleavings of all pairs of public operations on one object, for every class",
  "Tests run uninstrumented (-O2, no sanitizer) and few operation pairs concurrently; races manifest on particular schedules and usually leave no trace.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_shard.cc", "tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_message_queue.cc", "tkrzw_thread_util.h", "tkrzw_index.h"],
  [("lock hierarchy: object mutex, record/page mutex, cache slots, reorganisation", "tkrzw_dbm_*.cc")], (), ["ThreadSanitizer over public API workloads"])

p("C10", "A crash never costs a file hash database more than the in-flight record",
  "If the process dies between any two file writes while a file hash database is open (any tuning and any file class that hands its writes to the system at once rather than keeping pages or buckets in the process; any operation including Rebuild, Synchronize and Close), the next open with the default restore mode succeeds, and every record whose update had returned is there with its exact value; in in-place mode only the record of the interrupted operation may differ (old value, new value or absent), and in appending mode that record too has its old or its new value. "
  "A death within Clear leaves all records or none. The restored database is healthy, consistent in count and fully usable.",
  ["crash_points", "histories", "configurations"],
  "every file write/truncate/rename boundary of generated workloads x update mode, CRC, alignment, offset width, bucket count, compression",
  "Tests emulate a crash only at a few places, by copying an unclosed file between operations; a crash inside an operation is never tested.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_hash_impl.cc"],
  [("closed flag and metadata", "tkrzw_dbm_hash.cc: SaveMetadata, OpenImpl"), ("write ordering inside an update", "tkrzw_dbm_hash.cc: ProcessImpl"), ("validation and restoration", "tkrzw_dbm_hash.cc: Open, RestoreDatabase, ValidateRecordsImpl, ValidateHashBucketsImpl, ImportFromFile*")],
  [("database file image", "state at the crash", "file")], ["file images at each write"], None)

p("C11", "Synchronized state is recovered exactly by RESTORE_SYNC, even after torn writes",
  "With the appending update mode, a database reopened with RESTORE_SYNC after a crash has exactly the contents of the last completed Synchronize (or open), whatever subset of later record writes reached the file and even if the last write is torn; a crash inside Synchronize yields the state before or after it. "
  "With hard synchronization the data is handed to fsync before the metadata that makes it visible is written, so the same holds when any subset of the unsynced writes is lost (a write of the metadata, within one sector, being atomic), for HashDBM and for TreeDBM alike.",
  ["crash_points", "histories", "configurations"],
  "every crash point and torn/omitted unsynced write of generated transaction workloads",
  "Tests check one transaction with a clean copy; write reordering and torn writes are never produced.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc"],
  [("sync protocol", "tkrzw_dbm_hash.cc: Synchronize; tkrzw_dbm_tree.cc: Synchronize"), ("restore to file_size", "tkrzw_dbm_hash.cc: RestoreDatabase, ImportFromFileBackwardImpl")], (), ["file operation log with fsync barriers"])

p("C12", "A crash never damages a file tree database beyond unflushed pages",
  "If the process dies between any two file writes while a file tree database is open (any page size, cache size, comparator and update mode; any operation other than Clear), reopening it with the default restore mode succeeds and yields a healthy database: records in order, no key twice, a count equal to the records, and every value is one that was stored for that key; if nothing was updated since the last completed Synchronize (or open), the contents are exactly the synchronized ones. "
  "With the page update mode that writes pages at once and the appending mode, every completed update survives, only the interrupted one may be missing.",
  ["crash_points", "histories", "configurations"],
  "every file write boundary of generated workloads with splits, merges, evictions, Rebuild and Synchronize",
  "Tests restore only from clean copies after Synchronize or from one kind of damage.",
  ["tkrzw_dbm_tree.cc", "tkrzw_dbm_hash.cc"],
  [("page write-out order", "tkrzw_dbm_tree.cc: Save*Node, FlushLeafCache*, Synchronize"), ("tree restoration", "tkrzw_dbm_tree.cc: RestoreDatabase")], (), ["file images at each write"])

p("C13", "Whole-file replacement is atomic: old or new contents, never a mixture",
  "SkipDBM Synchronize/Close, the saving of TinyDBM, BabyDBM, CacheDBM, StdHashDBM and StdTreeDBM, WriteFileAtomic, and database Rebuild replace the file atomically: if the process dies, or a file-system call fails, at any step, the path afterwards holds the complete previous or the complete new contents. "
  "Leftover temporary files never affect a later open, synchronization or rebuild.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point (system call) during saving x database classes x sizes",
  "Tests never interrupt a save.",
  ["tkrzw_dbm_skip.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_file_util.cc", "tkrzw_dbm_hash.cc"],
  [("temporary file and rename", "tkrzw_dbm_skip.cc: FinishStorage; tkrzw_dbm_*.cc: ExportRecords; tkrzw_file_util.cc: WriteFileAtomic")], (), ["file contents after process death at each system call"])

p("C14", "I/O failures of hash and skip databases are reported and lose no records",
  "If a file operation under a HashDBM or SkipDBM fails (write, append, truncate, sync, read, opening or renaming a temporary file), the public operation that needed it (update, lookup, scan, Synchronize, Rebuild) returns an error status instead of reporting success, does not crash, and leaves every other record readable with its acknowledged value (SkipDBM: the contents of the last successful synchronization, or completely the new ones); after the fault ends the database can be closed and reopened with all acknowledged records intact. "
  "A failing update logger of a HashDBM makes the update fail without changing the record. A failing write inside TreeDBM::ProcessMulti leaves no page locked. (Reads for which a fallback exists may succeed; the record counter, and Rebuild after failed writes, are excluded.)",
  ["fault_sequences", "histories", "configurations"],
  "each single file-operation failure position, and bursts, in generated workloads on hash and skip databases",
  "The suite never injects I/O errors.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_tree.cc"],
  [("status propagation", "tkrzw_dbm_hash.cc, tkrzw_dbm_skip.cc"), ("log before update", "tkrzw_dbm_hash.cc: update_logger_ calls")], (), ["injected File implementation"])

p("C15", "Replaying the update log reproduces the database",
  "For every database class but SkipDBM with an update logger attached, every effective modification (evictions of CacheDBM apart) is logged with its uncompressed value and no ineffective call, failed update, rebuild or reopening is, so that replaying the log into a copy of the starting contents reproduces the final contents exactly, also when the updates were made concurrently by many threads, through multi-record, iterator and full-scan operations, by Clear, or on a sharded database (where Clear racing other updates is not isolated). "
  "Update logs round-trip through the message queue with server and database identifiers and filters honoured, and a log replayed by timestamp reproduces the later part.",
  ["histories", "schedules", "inputs"],
  "all operation sequences and interleavings x database classes x logger kinds x filters",
  "Tests log a handful of operations sequentially; order agreement between log and database under concurrency is a schedule property.",
  ["tkrzw_dbm_ulog.cc", "tkrzw_dbm_ulog.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_shard.cc", "tkrzw_dbm_skip.cc"],
  [("logging under the record lock", "tkrzw_dbm_*.cc: update_logger_ calls"), ("log format", "tkrzw_dbm_ulog.cc")], (), ["UpdateLogger callbacks and replayed database"])

p("C16", "The message queue delivers every message exactly once, in order, across files",
  "Every message written to a message queue is read exactly once by each reader, byte-exact and in write order with its timestamp, whatever the file rotation, reader start time, waiting mode and concurrency of writers; timestamps never go backwards and a reader with a minimum timestamp skips exactly the older ones. "
  "After reopening or a crash the queue continues after the last complete message (a torn one needs OPEN_IGNORE_BROKEN), its time not before that message's; RemoveOldFiles drops only files that are entirely older, and cancelled or closed readers return promptly.",
  ["schedules", "histories", "crash_points", "inputs"],
  "all message sizes, rotations, reader/writer interleavings, reopen and truncation points",
  "Tests use fixed messages and one reader pattern.",
  ["tkrzw_message_queue.cc", "tkrzw_message_queue.h"],
  [("message format and rotation", "tkrzw_message_queue.cc: Write, Reader::Read"), ("blocking wait", "tkrzw_message_queue.cc: Wait")], (), ["MessageQueue public API"])

p("C17", "Every File implementation is a faithful, thread-safe byte array",
  "For any sequence of Open, Read, Write, Append, Expand, Truncate, Synchronize, GetSize, Close and reopen, every file class and access strategy (memory-mapped, positional, standard stream; parallel and atomic; head buffer, mini page cache, block alignment, padding) reads back exactly what a byte array with the same operations holds, rejects out-of-range reads, and leaves a file of exactly the logical size (plus documented padding) after Close. "
  "Concurrent appends get disjoint regions that together form the file, concurrent writes and reads of disjoint regions never disturb each other, and atomic classes never show a torn write.",
  ["inputs", "histories", "configurations", "schedules"],
  "all offsets, sizes and operation orders x file classes x allocation and access strategies x concurrent users",
  "Tests use fixed offsets and small files; page-cache boundaries, growth and alignment arithmetic are input dependent.",
  ["tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_file_std.cc", "tkrzw_file_poly.cc", "tkrzw_sys_file_mmap_std.h", "tkrzw_sys_file_pos_std.h", "tkrzw_file_util.cc"],
  [("growth and mapping", "tkrzw_sys_file_mmap_std.h, tkrzw_file_mmap.cc"), ("head buffer / page cache / direct I/O", "tkrzw_file_pos.cc, tkrzw_file_util.cc: PageCache")], (), ["File public API"])

p("C18", "Encoders and serializers round-trip every input and never read out of bounds",
  "Every encode/decode pair (C escape, URL, Base64, TSV trimming and escaping, big-endian and delta integers and floats, string pairs, vectors and maps, basic values and vectors, delta vectors, UTF-8/UCS-4/wide, numeric parsing and formatting) returns the original for every input in its domain, and every decoder or parser given arbitrary bytes returns without undefined behaviour. "
  "Splitting, joining, case, trimming and replacement functions match their definitions for all strings.",
  ["inputs"],
  "all byte strings, integers of every width and sign, floats, vectors and maps",
  "Tests check selected strings.",
  ["tkrzw_str_util.cc", "tkrzw_str_util.h", "tkrzw_lib_common.h", "tkrzw_lib_common.cc"],
  [("codec functions", "tkrzw_str_util.cc")], (), ["function results"])

p("C19", "String search, pattern, edit-distance and database search agree with brute force",
  "All substring search algorithms (naive, memchr, memmem, KMP, Boyer-Moore, Rabin-Karp, Z, batch, case- and word-insensitive variants) report exactly the occurrences a brute-force scan finds, for every text and pattern, and the edit distance equals the textbook definition. "
  "Key searches over a database or text file (contain, begin, end, equal, range, regular expression, edit distance and their modal forms) return exactly the matching keys, bounded by the capacity and in the documented order, for ordered and unordered databases alike.",
  ["inputs", "configurations"],
  "all texts/patterns including repetitive and binary ones, lengths 0 to beyond word sizes, all search modes and capacities, all database classes",
  "Tests check a few texts; skip tables and rolling hashes break only on particular repetitive or high-byte inputs.",
  ["tkrzw_str_util.cc", "tkrzw_str_util.h", "tkrzw_dbm_common_impl.cc"],
  [("search algorithms", "tkrzw_str_util.cc"), ("database search", "tkrzw_dbm_common_impl.cc: SearchDBM*, SearchTextFile*")], (), ["function results"])

p("C20", "Compressors and ciphers round-trip and reject garbage safely",
  "For every compressor and cipher in every mode and level, decompressing what was compressed returns the original bytes for every input, including empty and incompressible ones, with stored metadata (checksum modes) verified. "
  "Decompressing arbitrary, truncated or bit-flipped data never crashes, reads or writes out of bounds, or leaks, and checksummed modes never return altered data as if it were valid.",
  ["inputs", "configurations"],
  "all byte strings x compressor classes, levels, metadata modes and keys x corruptions",
  "Tests compress a few strings and never decompress corrupt data.",
  ["tkrzw_compress.cc", "tkrzw_compress.h", "tkrzw_sys_compress_aes.h"],
  [("compressor implementations", "tkrzw_compress.cc")], (), ["Compressor API under ASan/UBSan"])

p("C21", "Asynchronous operations run exactly once and report the real result",
  "Every operation submitted to an AsyncDBM executes exactly once on the database and its future yields exactly the status and data that the synchronous call would, with one worker in submission order and with several workers in some linearizable order; the common postprocessor sees every operation once. "
  "Task queues run every added task exactly once, Stop and destruction wait for the queued tasks (up to the timeout), and no task is lost or run after Stop returns.",
  ["schedules", "histories"],
  "all submission orders and timings x worker counts x operation kinds x shutdown points",
  "Tests submit a few operations and wait for each.",
  ["tkrzw_dbm_async.cc", "tkrzw_dbm_async.h", "tkrzw_thread_util.h"],
  [("task queue", "tkrzw_thread_util.h: TaskQueue"), ("promise/future tasks", "tkrzw_dbm_async.cc")], (), ["AsyncDBM and TaskQueue public API"])

p("C22", "Secondary indices are exact sorted multimaps",
  "FileIndex, MemIndex, StdIndex and PolyIndex hold exactly the set of (key, value) pairs added and not removed, for arbitrary byte strings including those that contain separators or are empty: Check, GetValues (with limits, in value order), Count, iteration in (key, value) comparator order and Jump all agree with a sorted set, across Rebuild, Synchronize, Clear and reopen. "
  "This holds for each compatible pair comparator and under concurrent use.",
  ["inputs", "histories", "configurations", "schedules"],
  "all add/remove sequences x comparators x binary keys/values x index classes",
  "Tests use small decimal and ASCII keys.",
  ["tkrzw_index.h", "tkrzw_key_comparators.h", "tkrzw_str_util.cc"],
  [("pair keys and comparators", "tkrzw_index.h, tkrzw_key_comparators.h, tkrzw_str_util.cc: SerializeStrPair")], (), ["index public API"])

p("C23", "PolyDBM and ShardDBM are transparent adapters",
  "A PolyDBM behaves exactly as the database class it selects, with every textual tuning parameter and file option taking effect, and a ShardDBM over any class and number of shards behaves as one single database: the same results as a map, counts and sizes summed, ordered iteration globally merged and unordered iteration complete, multi-record and whole-database operations covering every shard, and the number of shards and all records found again on reopening. "
  "Rebuild, Synchronize, CopyFileData, Clear and RestoreDatabase apply to all shards.",
  ["inputs", "histories", "configurations"],
  "all operation sequences x database classes x shard counts x parameter combinations",
  "Tests use a few classes and shard counts with fixed keys.",
  ["tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc", "tkrzw_dbm_poly.h", "tkrzw_dbm_shard.h"],
  [("parameter parsing", "tkrzw_dbm_poly.cc: SetFileParams, OpenAdvanced"), ("shard routing and merging", "tkrzw_dbm_shard.cc")], (), ["PolyDBM/ShardDBM public API"])

p("C24", "The C interface is equivalent to the C++ one and manages memory exactly",
  "Every function of the C interface returns the result (value, size, status code via the last-status function) that the equivalent C++ call gives, for all inputs including binary data, null pointers and negative sizes meaning string length, and out parameters. "
  "Every returned region is exactly allocated, terminated, freeable by the documented call, and no call leaks, reads or writes out of bounds; the last status is per thread.",
  ["inputs", "histories", "schedules"],
  "all call sequences over databases, iterators, async objects, files, indices and utilities",
  "Tests call each function once or twice without a memory checker.",
  ["tkrzw_langc.cc", "tkrzw_langc.h"],
  [("wrapping and allocation", "tkrzw_langc.cc"), ("thread-local last status", "tkrzw_langc.cc: last_status_code")], (), ["C API under ASan/LSan"])

p("C25", "Exports, imports and live backups carry exactly the records",
  "Exporting to flat records, TSV (escaped) or another database and importing again reproduces every key and value exactly, with the same number of records, for arbitrary binary data and any source and destination class. "
  "A copy taken with CopyFileData or inside Synchronize's file processor while writers are running opens as a healthy database whose contents are one point-in-time state: every update acknowledged before the call began is in it and none begun after it returned.",
  ["inputs", "histories", "schedules"],
  "all contents x source/destination classes x concurrent writers during the copy",
  "Tests export small ASCII databases and copy quiescent ones.",
  ["tkrzw_dbm_common_impl.cc", "tkrzw_dbm.cc", "tkrzw_dbm.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_file_util.cc"],
  [("flat record format", "tkrzw_dbm_common_impl.cc: FlatRecord, Export*/Import*"), ("exclusive lock while copying", "tkrzw_dbm_*.cc: Synchronize")], (), ["exported files, copied databases"])

p("C26", "Rebuild under load keeps every record and all metadata",
  "While HashDBM or TreeDBM is being rebuilt by one thread (any new tuning), updates by other threads proceed and none is lost, duplicated or resurrected: after the rebuild the contents equal exactly what the acknowledged updates imply, and the count, opaque metadata, database type, update mode and comparator are kept or changed only as requested. "
  "The file shrinks to hold only live records, later reopening sees the same state, and repeated or simultaneous rebuild calls are harmless.",
  ["schedules", "histories", "configurations"],
  "all interleavings of updates with the phases of a rebuild x tunings",
  "Tests rebuild a quiescent database, or check only that threads finish.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc"],
  [("switch to appending, forward import of the tail, final blocking swap", "tkrzw_dbm_hash.cc: RebuildImpl"), ("tree rebuild", "tkrzw_dbm_tree.cc: Rebuild")], (), ["public API"])

p("C27", "Locks and thread primitives give mutual exclusion and never lose a wake-up",
  "SpinMutex, SpinSharedMutex, SpinWPSharedMutex, SlottedMutex and HashMutex (single, shared, multi and whole locking, also while being rehashed) never admit a writer together with any other holder, admit concurrent readers, honour try/upgrade/downgrade semantics, and locking several keys in any order never deadlocks. "
  "WaitCounter, SignalBroker, KeySignalBroker and SlottedKeySignalBroker never lose a signal sent after a waiter was prepared, wake exactly the requested number of waiters, and time out otherwise.",
  ["schedules"],
  "all interleavings of lock, shared lock, try, upgrade, downgrade, multi-lock, rehash, wait and send",
  "Tests run short loops whose failure would need unlucky timing.",
  ["tkrzw_thread_util.h"],
  [("atomic counters of spin locks", "tkrzw_thread_util.h"), ("rehash re-check after locking", "tkrzw_thread_util.h: HashMutex::LockOne")], (), ["critical-section monitors"])

p("C28", "In-memory containers match their models",
  "LinkedHashMap keeps exactly the mapped pairs in the order implied by insertions and move modes, across rehashing, migration, erasure and iteration in both directions; LRUCache and DoubleLRUCache hold the identities given, evict in least-recently-used order with promotion from warm to hot, and iterate over all of them; AtomicSet is a set; heap and sorted-merge helpers match their definitions. "
  "No sequence of calls leaks, double-frees or dangles.",
  ["inputs", "histories"],
  "all operation sequences on each container",
  "Tests use a few fixed sequences.",
  ["tkrzw_containers.h"],
  [("container implementations", "tkrzw_containers.h")], (), ["container API under ASan"])

p("C29", "Hash functions, checksums and on-disk formats are stable",
  "Database, index, skip, flat-record and message-queue files written by the released version stay readable with exactly the same records and metadata, and files written now keep the documented layout (magic data, field offsets, record encodings), on which interoperability rests. "
  "MurmurHash, FNV, Adler and CRC functions equal their reference definitions for every input, in one piece or continued in pieces, and bucket/shard routing of keys is unchanged.",
  ["inputs", "configurations"],
  "all inputs of the hash functions; released files of every class and tuning",
  "Tests check a few digests and always write and read with the same build.",
  ["tkrzw_hash_util.cc", "tkrzw_dbm_common_impl.h", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip_impl.cc", "tkrzw_message_queue.cc", "tkrzw_dbm_common_impl.cc"],
  [("hash and checksum functions", "tkrzw_hash_util.cc"), ("format constants and varints", "tkrzw_dbm_hash_impl.cc, tkrzw_str_util.h")], (), ["golden files and independent reference parsers"])

p("C30", "Damaged files are handled safely: an error or a recovery, never a crash",
  "Opening, reading, iterating, validating, restoring, rebuilding or importing a database, message-queue, flat-record or TSV file that was truncated or had arbitrary bytes changed returns statuses and terminates without memory errors, undefined behaviour or hangs. "
  "With record CRC enabled, data altered on disk is never returned as a valid record by restoration, and records in undamaged regions before the damage are recovered.",
  ["inputs", "configurations"],
  "all truncations and byte corruptions of valid files of every class and tuning",
  "Tests corrupt a handful of fixed positions.",
  ["tkrzw_dbm_hash.cc", "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_skip_impl.cc", "tkrzw_message_queue.cc", "tkrzw_dbm_common_impl.cc", "tkrzw_dbm_ulog.cc"],
  [("record sanity checks", "tkrzw_dbm_hash_impl.cc: ReadMetadataKey; tkrzw_dbm_skip_impl.cc"), ("restoration", "tkrzw_dbm_*.cc: RestoreDatabase")], (), ["public API under ASan/UBSan"])

p("C31", "Open modes, file locks and object lifecycle are enforced",
  "Calls on an unopened, closed, read-only or unhealthy database, file, queue or index return PRECONDITION_ERROR (or the documented failure) without side effects, reopening works any number of times, and destruction without Close loses nothing that Close would have kept. "
  "A writer excludes every other process and a reader excludes writers of the same file for the whole time it is open, options such as truncate, no-create, no-wait and no-lock do exactly what they say, and read-only access leaves the file bytes unchanged.",
  ["histories", "configurations", "schedules"],
  "all call orders including misuse x open options x competing processes",
  "Tests check a few preconditions and never use a second process.",
  ["tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_file_std.cc", "tkrzw_sys_file_mmap_std.h", "tkrzw_sys_util_posix.h", "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc", "tkrzw_dbm_poly.cc"],
  [("advisory file locks", "tkrzw_file_util.cc/tkrzw_sys_*: AcquireFileLock"), ("open_/writable_/healthy_ checks", "tkrzw_dbm_*.cc")], (), ["public API in several processes"])

p("C32", "Time and path utilities match their definitions for all values",
  "Calendar conversion, date formatting and parsing (simple, W3CDTF, RFC 1123, numeric with units), and day-of-week agree with the proleptic Gregorian calendar and with each other for every representable time and zone difference, and the message-queue timestamp expression parser agrees with its documentation. "
  "Path normalisation, joining, splitting, and file operations (write, read, copy, rename, truncate, directory listing, recursive creation and removal) agree with a reference model and never touch anything outside the given path.",
  ["inputs"],
  "all times, zone differences, strings and paths",
  "Tests check selected dates and paths.",
  ["tkrzw_time_util.cc", "tkrzw_file_util.cc", "tkrzw_message_queue.cc"],
  [("date arithmetic", "tkrzw_time_util.cc"), ("path handling", "tkrzw_file_util.cc")], (), ["function results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
