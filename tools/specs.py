"""What each check runs: drivers, builds, case counts; also the source of MANIFEST.json."""
RULE = "each case derives a configuration and an operation history from (VERIF_SEED, case number); it is non-trivial when the monitors compared real data (more than a couple of records or events), and distinct by the hash of its configuration and observed results"
SPECS = {}
NOT_APPLICABLE = {}


# Library parts a driver does not need (only to save build time; the runner adds them when the link fails).
NO_EXTRA = ("langc", "cmd_util", "dbm_async")
NO_MEM = ("dbm_std", "dbm_baby", "dbm_tiny", "dbm_cache")
NO_POLY = ("dbm_poly", "dbm_shard")
NO_SKIP = ("dbm_skip", "dbm_skip_impl")
NO_TREE = ("dbm_tree", "dbm_tree_impl")
NO_HASH = ("dbm_hash", "dbm_hash_impl")
NO_OTHER_DBM = NO_EXTRA + NO_MEM + NO_POLY + NO_SKIP + ("dbm_ulog", "message_queue")
NO_DBM = NO_OTHER_DBM + NO_TREE + NO_HASH + ("dbm", "dbm_common_impl")


def s(pid, technique, note, parts, level="exploration", rule=RULE, assumptions=None):
    SPECS[pid] = dict(technique=technique, level=level, level_note=note, parts=parts, rule=rule)
    if assumptions:
        SPECS[pid]["assumptions"] = assumptions


s("C01", "reference-map monitor over random API histories, ASan+UBSan build",
  "Held on the generated histories; every status, value and full scan compared with an independent map.",
  [dict(driver="c01", without=NO_OTHER_DBM + NO_TREE, variant="asan", quick=1100, thorough=60000)])
s("C02", "ordered reference-map monitor over random API histories, ASan+UBSan build",
  "Held on the generated histories; every status, value, forward and backward scan compared with an independent ordered map.",
  [dict(driver="c02", without=NO_OTHER_DBM, variant="asan", quick=700, thorough=40000)])
s("C03", "reference-model monitor (stable merge of sorted batches) over random API histories, ASan+UBSan build",
  "Held on the generated histories; every result, scan, jump and indexed access compared with an independent model of the merged sequence.",
  [dict(driver="c03", variant="asan", without=NO_EXTRA + NO_MEM + NO_POLY + NO_TREE + NO_HASH + ("dbm_ulog", "message_queue"), quick=900, thorough=40000)])
s("C04", "reference-map monitor over random API histories with reload of every saved file, ASan+UBSan build",
  "Held on the generated histories; every status, value, scan and every saved file compared with an independent map.",
  [dict(driver="c04", variant="asan", without=NO_EXTRA + ("dbm_cache",) + NO_POLY + NO_SKIP + NO_TREE + NO_HASH + ("dbm_ulog", "message_queue"), quick=700, thorough=40000)])
s("C05", "cache-model monitor (per-slot LRU lists) over random API histories, ASan+UBSan build",
  "Held on the generated histories; after nearly every step the whole contents were compared with the model.",
  [dict(driver="c05", variant="asan", without=NO_EXTRA + ("dbm_std", "dbm_baby", "dbm_tiny") + NO_POLY + NO_SKIP + NO_TREE + NO_HASH + ("dbm_ulog", "message_queue"), quick=6000, thorough=40000)])
s("C06", "iterator monitors: exact position model for one thread, offline check of scan logs against write logs for many, ASan+UBSan build",
  "Held on the generated histories and schedules; every yielded record, order and completeness of every scan judged.",
  [dict(driver="c06", variant="asan", without=NO_EXTRA[:2], quick=1500, thorough=60000)])


s("C07", "linearizability checking (WGL search per key) of recorded concurrent histories under injected delays; TSan and ASan builds",
  "Held on the recorded histories; every result of every operation on the hot keys is explained by one sequential order, and contents after the run and after reopening equal its end.",
  [dict(driver="c07", variant="asan", without=NO_EXTRA[:2] + NO_SKIP[:0], quick=800, thorough=60000),
   dict(driver="c07", variant="tsan", label="c07-tsan", without=NO_EXTRA[:2], quick=160, thorough=8000, base=1000000)])
s("C08", "linearizability checking (WGL search over the state of all keys) of recorded concurrent transactions; exactly-once monitor for pop/push; TSan and ASan builds",
  "Held on the recorded histories; every value each transaction saw is explained by one sequential order of whole transactions.",
  [dict(driver="c08", variant="asan", without=NO_EXTRA[:2], quick=1200, thorough=60000),
   dict(driver="c08", variant="tsan", label="c08-tsan", without=NO_EXTRA[:2], quick=240, thorough=8000, base=1000000)])

s("C09", "ThreadSanitizer and AddressSanitizer over stress workloads of every public method with injected delays; watchdog for deadlocks; coherence monitor afterwards",
  "No race, misuse of freed state, deadlock or incoherent end state in the schedules executed.",
  [dict(driver="c09", variant="tsan", without=(), quick=700, thorough=40000),
   dict(driver="c09", variant="asan", label="c09-asan", without=(), quick=700, thorough=40000, base=1000000)])
s("C28", "model monitors (ordered lists, sets, live-object counters) over random call sequences, ASan+UBSan and TSan builds",
  "Held on the generated call sequences; contents, order in both directions and the number of live objects compared after every call.",
  [dict(driver="c28", variant="asan", without=NO_DBM, quick=20000, thorough=400000),
   dict(driver="c28", variant="tsan", label="c28-tsan", without=NO_DBM, quick=600, thorough=40000, base=1000000)])
s("C18", "round-trip, definition and bounds monitors over random, boundary and mutated inputs, ASan+UBSan build",
  "Held on the generated inputs; every encoder, decoder, parser and basic string function compared with an independent definition, decoders also run on arbitrary bytes in exactly sized buffers.",
  [dict(driver="c18", variant="asan", without=NO_DBM, quick=15000, thorough=400000)])
s("C19", "brute-force definition monitors over random texts, patterns, key sets and text files, ASan+UBSan build",
  "Held on the generated texts, patterns and databases; every reported occurrence, key and distance compared with the definition.",
  [dict(driver="c19", variant="asan", without=NO_EXTRA + ("dbm_ulog", "message_queue"), quick=4000, thorough=400000)])
s("C20", "round-trip monitors, damaged-input monitors and heap accounting over random data for every compressor and cipher, ASan+UBSan and TSan builds",
  "Held on the generated data; every byte of every output compared or read, damaged input in exactly sized buffers.",
  [dict(driver="c20", variant="asan", without=NO_DBM, quick=1500, thorough=200000),
   dict(driver="c20", variant="tsan", label="c20-tsan", without=NO_DBM, quick=200, thorough=10000, base=1000000)])
s("C32", "definition monitors (calendar by day counting, lexical path rules, file-tree model) over random and boundary inputs, ASan+UBSan build",
  "Held on the generated times, zones, strings, paths and file operation sequences; parsers also run on damaged strings in exactly sized buffers.",
  [dict(driver="c32", variant="asan", without=NO_OTHER_DBM[:-1] + NO_TREE + NO_HASH, quick=2500, thorough=400000)])
s("C17", "byte-array model monitor over random file operations, tiling and tear monitors over concurrent ones, ASan+UBSan and TSan builds",
  "Held on the generated histories and schedules; contents, sizes and the bytes on the disk compared with a byte array.",
  [dict(driver="c17", variant="asan", without=NO_DBM, quick=9000, thorough=200000),
   dict(driver="c17", variant="tsan", label="c17-tsan", without=NO_DBM, quick=2400, thorough=20000, base=1000000)])
s("C10", "crash-image monitor: the files before every mutating file operation or system call of a random history are reopened and compared with the acknowledged contents, ASan+UBSan build",
  "Held on the crash images taken; each image reopened, its whole contents compared, used, closed and reopened; restorations killed as well.",
  [dict(driver="c10", without=NO_OTHER_DBM + NO_TREE, variant="asan", quick=6000, thorough=60000)])
s("C11", "device-image monitor: images with a random subset of the unsynchronized writes (the last one torn) are reopened with RESTORE_SYNC and compared with the last synchronized contents, ASan+UBSan build",
  "Held on the images taken; contents, count and order compared exactly with the last completed Synchronize, restorations stopped as well.",
  [dict(driver="c11", without=NO_OTHER_DBM, variant="asan", quick=1000, thorough=60000)])
s("C12", "crash-image monitor: the files before every mutating file operation or system call of a random tree history are reopened; order, counts, values ever stored and (write-through) survival judged, ASan+UBSan build",
  "Held on the crash images taken; each image reopened, scanned, used, closed and reopened; restorations killed as well.",
  [dict(driver="c12", without=NO_OTHER_DBM, variant="asan", quick=2500, thorough=60000)])
s("C13", "crash-image and failing-call monitor: every file operation and system call of a save is a crash point or made to fail; the path must hold the old or the new contents, ASan+UBSan build",
  "Held on the generated saves; each image reopened, compared, used and saved again.",
  [dict(driver="c13", without=NO_EXTRA + NO_POLY, variant="asan", quick=1500, thorough=100000)])

s("C14", "fault-injection monitor: the nth file operation (or update logger call) fails, singly or in bursts; statuses and all records are compared with the acknowledged updates, ASan+UBSan build",
  "Held on the generated histories with injected failures.",
  [dict(driver="c14", without=NO_EXTRA + NO_POLY, variant="asan", quick=9000, thorough=150000)])

s("C15", "event-log replay monitor: every logged update is recorded in order and replayed into a copy, compared with the model after each call and with the quiescent database after concurrent rounds, ASan+UBSan and TSan builds",
  "Held on the generated histories and schedules; every event replayed, whole contents compared.",
  [dict(driver="c15", variant="asan", quick=3000, thorough=100000),
   dict(driver="c15", variant="tsan", label="c15-tsan", quick=600, thorough=20000, base=1000000)])

s("C16", "message-list model monitor over random histories, crash images before system calls, and delivery-order monitors over concurrent writers and readers, ASan+UBSan and TSan builds",
  "Held on the generated histories, images and schedules; every message compared byte by byte with its time and position.",
  [dict(driver="c16", variant="asan", without=NO_DBM, quick=1600, thorough=100000),
   dict(driver="c16", variant="tsan", label="c16-tsan", without=NO_DBM, quick=300, thorough=20000, base=1000000)])

s("C21", "twin-database monitor of results and contents, per-key linearizability checker over asynchronous histories, exactly-once token monitor and postprocessor log, ASan+UBSan and TSan builds",
  "Held on the generated histories and schedules; every future's result compared with the synchronous call, arguments freed right after the submission.",
  [dict(driver="c21", variant="asan", without=NO_EXTRA[:2], quick=2500, thorough=100000),
   dict(driver="c21", variant="tsan", label="c21-tsan", without=NO_EXTRA[:2], quick=500, thorough=20000, base=1000000)])

s("C27", "holder monitors inside every critical section, wake-up and balance monitors on the signalling classes over stressed schedules, ASan+UBSan and TSan builds",
  "Held on the schedules that occurred; in every section the other holders are counted and unsynchronized data guarded by the lock is checked.",
  [dict(driver="c27", variant="asan", without=NO_DBM, quick=6000, thorough=100000),
   dict(driver="c27", variant="tsan", label="c27-tsan", without=NO_DBM, quick=2000, thorough=20000, base=1000000)])

s("C22", "sorted-set model monitor over random index histories with reopening and rebuilds, and own/stable-pair monitors over concurrent schedules, ASan+UBSan and TSan builds",
  "Held on the generated histories and schedules; every pair, order, count and value list compared.",
  [dict(driver="c22", variant="asan", without=NO_EXTRA, quick=6000, thorough=200000),
   dict(driver="c22", variant="tsan", label="c22-tsan", without=NO_EXTRA, quick=500, thorough=20000, base=1000000)])

s("C26", "rebuild-under-load monitor: owned, contended and stable records and counters of running threads are compared with the database after and between rebuilds, with injected file delays, ASan+UBSan and TSan builds",
  "Held on the generated histories and schedules; every record, the metadata and file sizes compared with a fresh database, reopened.",
  [dict(driver="c26", variant="asan", without=NO_EXTRA + NO_POLY, quick=1500, thorough=60000),
   dict(driver="c26", variant="tsan", label="c26-tsan", without=NO_EXTRA + NO_POLY, quick=200, thorough=10000, base=1000000)])

s("C23", "twin-database monitors: PolyDBM with textual parameters against the class with the same struct parameters, ShardDBM against one database of the same class, over random histories, reopenings, rebuilds and refused openings, ASan+UBSan build",
  "Held on the generated histories; every result, attribute, listing, shard file and update log compared.",
  [dict(driver="c23", variant="asan", without=NO_EXTRA[:2], quick=3000, thorough=100000)])

s("C25", "round-trip monitor with independent parsers of the exported formats, and backup monitor: live copies are opened and must be prefixes of the recorded histories of the running writers at one point of time, ASan+UBSan and TSan builds",
  "Held on the generated contents and schedules; every record of every export, import and copy compared.",
  [dict(driver="c25", variant="asan", without=NO_EXTRA[:2], quick=1500, thorough=60000),
   dict(driver="c25", variant="tsan", label="c25-tsan", without=NO_EXTRA[:2], quick=200, thorough=10000, base=1000000)])

s("C31", "lifecycle monitor (every call in every wrong state must be refused without effects, sessions compared with a model, file bytes compared) and lock monitor over competing processes with shared counters: no overlapping holds, no lost update, refused opens change nothing, ASan+UBSan build",
  "Held on the generated session histories and process schedules; every hold and every refused call judged.",
  [dict(driver="c31", variant="asan", without=NO_EXTRA, quick=2500, thorough=100000, case_timeout=60)])
