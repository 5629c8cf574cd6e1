"""The properties: text for properties.jsonl and the wording of what each check leaves out."""
PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, outside, technique="symbolic execution of the LLVM bitcode of /repo (symx + Z3)", note=""):
    assert len(title) <= 80, title
    PROPS[pid] = dict(title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, outside=outside, technique=technique, note=note)


prop("C01", "The file hash database behaves as a map under every operation sequence",
     "After any sequence of the operations of the DBM interface, a file hash database contains exactly the records a plain map would contain: every lookup, count, traversal, conditional update, append, increment, rekey and removal reports what the map reports, for every key and value, including empty ones. This holds in both update modes and for every record CRC mode, offset width, alignment, bucket count, free-block pool capacity and minimum read size.",
     "histories inputs configurations", "all operation sequences up to the stated length, all key and value bytes, value lengths around every size-encoding, alignment and read-ahead boundary, and the listed tuning parameters",
     "The tests run fixed scripts and random streams with default-like tuning; which keys collide, which block is reused and where a record straddles a boundary are left to chance.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_hash.h tkrzw_dbm_hash_impl.cc tkrzw_dbm_hash_impl.h tkrzw_dbm.h tkrzw_dbm.cc",
     ["HashDBMImpl::Process/ProcessImpl/ProcessMulti/ProcessEach/ProcessFirst", "HashRecord (record layout, CRC, padding)", "FreeBlockPool", "DBM convenience operations built on processors"],
     "longer sequences, keys whose symbolic part is longer than the stated bytes, files beyond a few KiB, compressing record modes other than RC4/AES")
prop("C02", "The file tree database behaves as an ordered map through splits and merges",
     "After any sequence of operations a file tree database contains exactly the records of an ordered map under its key comparator, and forward, backward and positioned traversals yield them in order. Page division, page merging, page cache eviction and tree height changes are never observable.",
     "histories inputs configurations", "all operation sequences up to the stated length and all key and value bytes, for page sizes and branch counts small enough that every few insertions split and every few removals merge",
     "Tests use thousands of records with default page sizes and sequential or random keys, which reaches few of the combinations of split position, merge direction and cache eviction.",
     "tkrzw_dbm_tree.cc tkrzw_dbm_tree.h tkrzw_dbm_tree_impl.cc tkrzw_dbm_tree_impl.h",
     ["TreeDBMImpl::DivideNodes/MergeNodes/SearchTree/AddLinkToInnerNode", "leaf and inner node serialization", "double-layered LRU page cache"],
     "longer sequences, trees deeper than the stated record counts reach, page compression")
prop("C03", "The skip database publishes at each synchronization exactly the pending updates",
     "The content of a file skip database is always an ordered map: updates become visible together at the next synchronization, which leaves exactly the previous records with all pending insertions and removals applied in order through the reducer. Lookups by key, by index, and ordered traversal then agree with that map, whatever the step unit, maximum level, sort memory and insertion mode.",
     "histories inputs configurations", "all update sequences with synchronizations at any point up to the stated length, all key and value bytes, all built-in reducers and small step units and levels",
     "Tests insert sorted or shuffled fixed keys; the interplay of pending records, removal marks, level links and reducers over arbitrary keys is not enumerable by example.",
     "tkrzw_dbm_skip.cc tkrzw_dbm_skip.h tkrzw_dbm_skip_impl.cc tkrzw_dbm_skip_impl.h",
     ["SkipDBMImpl::SynchronizeImpl/UpdateRecord/FinishStorage", "SkipRecord level links", "RecordSorter", "reducers"],
     "longer sequences, external merge of many slots, databases larger than the stated record counts")
prop("C04", "The on-memory databases behave as maps under every operation sequence",
     "After any sequence of operations the on-memory hash, tree and standard-container databases contain exactly the records of a map (an ordered map for the ordered ones) and every operation reports what the map reports.",
     "histories inputs configurations", "all operation sequences up to the stated length over all key and value bytes, with few buckets so that chains form, and with symbolic keys so that all splits occur",
     "Tests use fixed keys and random streams; which chain position, which page split and which value length change is reached is left to chance.",
     "tkrzw_dbm_tiny.cc tkrzw_dbm_baby.cc tkrzw_dbm_std.cc tkrzw_dbm.h tkrzw_dbm.cc",
     ["TinyDBMImpl record chains and rehash", "BabyDBMImpl B+ tree nodes", "StdDBMImplHash/StdDBMImplTree"],
     "longer sequences and the large record counts that trigger deep baby trees")
prop("C05", "The cache database is a map that only ever evicts least recently used records",
     "A cache database within its capacity behaves exactly as a map. When a capacity is exceeded it drops records from the least recently used end only, so any record it returns carries the latest stored value, the most recently used record survives, and the count stays within the capacity.",
     "histories inputs configurations", "all operation sequences up to the stated length over all keys of a symbolic domain and small record and memory capacities",
     "Tests fill the cache sequentially and look at totals; the recency order over arbitrary access histories is not checked.",
     "tkrzw_dbm_cache.cc tkrzw_dbm_cache.h",
     ["CacheSlot record list and LRU list", "capacity enforcement", "rebuild with other capacities"],
     "longer histories, more than two cache slots in play at once")
prop("C06", "The polymorphic and sharding adapters neither add to nor hide from a database",
     "A database opened through the polymorphic adapter or spread over shards behaves as one database of the chosen class: every operation, traversal and inspection gives the result the map model gives, each record lives in exactly one shard, and ordered sharded traversal is globally ordered.",
     "histories inputs configurations", "all operation sequences up to the stated length over all key and value bytes, for each adapter, class and shard count listed",
     "Tests run each adapter with fixed keys and few shard counts; arbitrary distributions of keys over shards and merged iteration orders are not reached.",
     "tkrzw_dbm_poly.cc tkrzw_dbm_poly.h tkrzw_dbm_shard.cc tkrzw_dbm_shard.h",
     ["PolyDBM parameter translation and forwarding", "ShardDBM key routing", "ShardDBM::Iterator heap"],
     "more shards than listed, parallel multi-process use")
prop("C07", "A cleanly closed database reopens with exactly the content and metadata it had",
     "Whatever was stored before a successful close is there after reopening, with any file class, writable or not, and nothing else; the record count, opaque metadata, type and tuning survive, and the database is reported healthy. On-memory databases flush and reload the same content.",
     "histories inputs configurations", "all operation sequences up to the stated length with closes and reopenings at any point, all key, value and metadata bytes, combinations of writing and reading file classes",
     "Tests reopen a handful of fixed databases with the same file class.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_tiny.cc tkrzw_dbm_baby.cc tkrzw_dbm_cache.cc tkrzw_dbm_std.cc tkrzw_dbm_common_impl.cc",
     ["metadata save/load", "free block pool persistence", "flat-record snapshot files"],
     "versions of the file format other than the current one")
prop("C08", "A process crash at any point loses nothing that was already safely stored",
     "If the process dies at any point during any operation, reopening the database restores it: every record not being modified at that moment is there with its value, the record being modified has its old or new value (or, for in-place updating only, may be lost), no record appears that was never stored, and the restored database is healthy and usable. In appending mode no record is lost, and restoring to the last synchronization gives exactly that state.",
     "crash_points histories inputs", "every store into the database file by the library, including half-done larger writes, as the crash point, in all short operation sequences, for all key and value bytes",
     "Tests simulate a crash by copying an open file at a few places after complete operations; no test stops between the individual writes of an operation.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_hash_impl.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_ulog.cc tkrzw_file_mmap.cc tkrzw_file_pos.cc",
     ["HashDBMImpl::OpenImpl auto restore, CheckSynchronizedState, ImportFromFileForward/Backward", "order of record and link writes", "SkipDBM atomic replacement", "closure flags and cyclic magic"],
     "power failures that reorder or drop already issued writes, crashes inside restoration except where listed")
prop("C09", "No file content or serialized input can make the library misbehave in memory",
     "Opening, reading, iterating, restoring or deserializing arbitrary bytes ends with a status or a result, without out-of-bounds access, null dereference, endless loop or uncaught exception.",
     "inputs", "all values of the stated number of arbitrary bytes at each of the stated places of a file or buffer",
     "A fuzzer or test sees a vanishing part of the byte strings; here every value of the marked bytes is decided.",
     "tkrzw_dbm_hash_impl.cc tkrzw_dbm_hash.cc tkrzw_dbm_skip_impl.cc tkrzw_dbm_tree_impl.cc tkrzw_dbm_common_impl.h tkrzw_dbm_common_impl.cc tkrzw_str_util.cc tkrzw_sys_config.h tkrzw_message_queue.cc tkrzw_dbm_ulog.cc",
     ["HashRecord::ReadMetadataKey/ReadBody", "DeserializeStrMap and the other deserializers", "ReadVarNum", "page and flat-record readers"],
     "arbitrary bytes beyond the marked ones, the metadata-declared sizes that need gigabytes of memory")
prop("C10", "With a record CRC, altered records are detected rather than returned",
     "In a database with record CRC, any change confined to one byte of a stored record's value is detected by the checks of the record and never silently returned by restoration as valid data. The checksums detect every single-byte change.",
     "inputs fault_sequences", "all byte positions of the value and every altered byte value, for the 8, 16 and 32 bit modes",
     "Tests corrupt a few fixed bytes.",
     "tkrzw_dbm_hash_impl.cc tkrzw_dbm_hash.cc tkrzw_hash_util.cc",
     ["HashRecord::CheckCRC and ReadBody", "ValidateHashBuckets/ValidateRecords/ImportFromFileForward", "CRC-8/16/32"],
     "multi-byte corruption beyond what the CRC code guarantees")
prop("C11", "Binary serialization round-trips every value and never overlaps",
     "Each binary encoding the library writes (variable-length numbers, fixed-width and big-endian integers and floats, delta integers, serialized strings, pairs, vectors, maps and number vectors) decodes to exactly the value that was encoded, occupies exactly the size announced beforehand, and consecutive encodings decode in sequence.",
     "inputs", "all values of the numbers, and all bytes of strings and containers up to the stated sizes",
     "Round-trip tests take sample values; the size-boundary and sign cases between them are undecided.",
     "tkrzw_sys_config.h tkrzw_str_util.cc tkrzw_str_util.h tkrzw_lib_common.h",
     ["WriteVarNum/ReadVarNum/SizeVarNum", "WriteFixNum/ReadFixNum", "SerializeStr*/Deserialize*", "IntToStrBigEndian/StrToIntBigEndian/IntToStrDelta"],
     "containers longer than stated")
prop("C12", "Text encodings and number parsing round-trip every value",
     "Base64, URL and C-style escapings decode back to the original bytes and emit only the characters they promise; decimal formatting and parsing of integers agree; metric, hexadecimal and octal number parsing give the mathematically denoted value. Trimming for TSV keeps one record on one line.",
     "inputs", "all byte strings up to the stated length and all 64-bit integers in the stated encodings",
     "Tests have tables of examples.",
     "tkrzw_str_util.cc tkrzw_str_util.h",
     ["StrEncodeBase64/StrDecodeBase64", "StrEncodeURL/StrDecodeURL", "StrTrimForTSV", "StrEscapeC/StrUnescapeC", "StrToInt/StrToIntMetric/ToString"],
     "longer strings; floating point text conversion (C library)")
prop("C13", "String utilities agree with their plain definitions",
     "Searching, splitting, joining, replacing, trimming, case conversion, prefix and suffix tests, word search, edit distance, and UTF-8 conversion give the result of their straightforward definition on every input, and the different substring search algorithms agree with each other.",
     "inputs", "all byte strings up to the stated lengths",
     "Tests have tables of examples; search algorithms with shift tables fail on rare pattern and text combinations.",
     "tkrzw_str_util.cc tkrzw_str_util.h",
     ["StrSearch, StrSearchDoubleLoop, StrSearchKMP, StrSearchBM, StrSearchRK, StrSearchZ, StrSearchBatch*", "StrSplit/StrJoin/StrReplace/StrSqueeze/StrTrim", "EditDistanceLev", "ConvertUTF8ToUCS4"],
     "longer strings; regular expressions")
prop("C14", "Hash and checksum functions compute their defined functions",
     "The CRC functions equal the bitwise definition of their polynomials and can be continued piecewise with the same result, the checksum and Adler functions equal their sums, the FNV and Murmur hashes equal the fixed definitions that stored files depend on, bucket indices are always within range, and the prime table yields a bucket count at least as large as asked for.",
     "inputs", "all byte strings up to the stated length, all split points, all 64-bit seeds and bucket counts in the stated ranges",
     "Tests compare a few published vectors; table entries not hit by them are untested.",
     "tkrzw_hash_util.cc tkrzw_hash_util.h tkrzw_dbm_common_impl.cc",
     ["HashCRC4/8/16/32 and Continuous variants", "HashFNV, HashMurmur", "PrimaryHash/SecondaryHash", "GetHashBucketSize"],
     "inputs longer than stated")
prop("C15", "Every built-in key comparator is a consistent total order with its meaning",
     "Each built-in key comparator is antisymmetric, transitive and reflexive over all byte strings, agrees with the order it is named for on well-formed keys, and the pair comparators order by the first element first.",
     "inputs", "all pairs and triples of keys up to the stated length",
     "Tests compare listed pairs; a violated transitivity needs three specific keys.",
     "tkrzw_key_comparators.h tkrzw_str_util.cc",
     ["LexicalKeyComparator, LexicalCaseKeyComparator, DecimalKeyComparator, HexadecimalKeyComparator, RealNumberKeyComparator, SignedBigEndianKeyComparator, FloatBigEndianKeyComparator and their Pair forms"],
     "longer keys")
prop("C16", "The utility containers behave as their reference models",
     "The linked hash map, the plain and double-layered LRU caches, the atomic sets, the bounded heap by cost and the linked list queues give, after any sequence of operations, the results of a straightforward reference container, including recency order and eviction choice.",
     "histories inputs", "all operation sequences up to the stated length over symbolic keys",
     "Tests run fixed sequences.",
     "tkrzw_containers.h",
     ["LinkedHashMap", "LRUCache/DoubleLRUCache/LeveledLRUCache", "HeapByCost", "AtomicSet"],
     "longer sequences")
prop("C17", "The locks exclude, never lose a wakeup and never deadlock",
     "Spin, slotted, key-hashed, bucket and record locks of the library let at most one writer, or any number of readers, in at any time and never block forever when used as documented; upgrades and downgrades keep the exclusion; multi-key locks taken in any order by several threads complete.",
     "schedules", "all interleavings of the stated threads at lock and memory operations within the preemption bound",
     "Stress tests sample a tiny part of the schedules and cannot show absence.",
     "tkrzw_thread_util.h tkrzw_thread_util.h tkrzw_dbm_hash_impl.cc",
     ["SpinMutex, SpinSharedMutex, SlottedMutex, SlottedSpinSharedMutex, HashMutex, RecordMutex, ScopedHashLock*"],
     "more threads or context switches than stated; weak memory orderings beyond sequential consistency with data-race detection")
prop("C18", "Concurrent operations on one database take effect atomically",
     "When several threads operate on one database, every operation and every multi-record operation appears to take effect at one instant between its call and return, so results are explained by some sequential order and the final content is the one that order gives; conditional updates and increments never lose an update; no data race occurs.",
     "schedules histories", "all interleavings of the stated threads and operations within the preemption bound, for each database class",
     "Tests run threads under the operating system's scheduler, which repeats nearly the same interleavings.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_tiny.cc tkrzw_dbm_baby.cc tkrzw_dbm_cache.cc tkrzw_dbm_std.cc tkrzw_dbm_shard.cc tkrzw_file_mmap.cc tkrzw_file_pos.cc",
     ["per-bucket and per-page locking", "ProcessMulti lock acquisition", "rehash and page split under concurrency", "file growth under concurrent access"],
     "more threads, operations or context switches than stated; weak memory effects")
prop("C19", "Asynchronous operations all complete exactly once with the right result",
     "Every operation given to the asynchronous adapter is executed exactly once, its future yields the status and data the same synchronous call would give, operations of a single worker keep their order, and destruction waits for what was queued. Task queues and futures lose no task and no wakeup.",
     "schedules histories", "all interleavings of the stated clients and workers within the preemption bound, with symbolic keys",
     "Tests queue tasks and wait, under one natural schedule.",
     "tkrzw_dbm_async.cc tkrzw_dbm_async.h tkrzw_thread_util.h",
     ["AsyncDBM tasks and promises", "TaskQueue", "StatusFuture"],
     "more workers or context switches than stated")
prop("C20", "Iterators visit records exactly once, in order, and position exactly",
     "An iterator positioned by first, last, jump, lower-bound or upper-bound stands on exactly the record an ordered map's search gives, steps through neighbours in both directions without skipping or repeating, and while records are inserted, changed or removed during the traversal every untouched record is still visited exactly once and no removed record is returned (for the sharded database, whose iterators hold the current record of each shard, when the updates are made through the iterator).",
     "histories inputs", "all sets of records up to the stated size over all key bytes, all search keys, and all short interleavings of iterator movements with updates",
     "Tests iterate fixed record sets.",
     "tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_baby.cc tkrzw_dbm_std.cc tkrzw_dbm_hash.cc tkrzw_dbm_tiny.cc tkrzw_dbm_cache.cc tkrzw_dbm_shard.cc",
     ["Iterator First/Last/Jump/JumpLower/JumpUpper/Next/Previous/Process of each class"],
     "larger record sets")
prop("C21", "Replaying the update log reproduces the database",
     "When an update log is attached, applying the logged updates in order to a copy of the earlier content gives exactly the later content, for every database class; each log entry decodes to the operation that was performed.",
     "histories inputs", "all operation sequences up to the stated length and all key and value bytes, for each database class",
     "Tests compare one fixed script per class.",
     "tkrzw_dbm_ulog.cc tkrzw_dbm_ulog.h tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_tiny.cc tkrzw_dbm_baby.cc tkrzw_dbm_cache.cc tkrzw_dbm_std.cc",
     ["DBMUpdateLoggerMQ, DBMUpdateLoggerStrDeque, DBMUpdateLoggerDBM", "calls of the update logger in every class", "DBMUpdateLoggerMQ::ApplyUpdateLog"],
     "longer sequences; logs spread over many files beyond the stated")
prop("C22", "The message queue delivers every message once, in order, with its timestamp",
     "A reader of the message queue receives every message written at or after its start timestamp exactly once, in order, with its content and a nondecreasing timestamp, across file changes and reopenings; truncated tails are skipped; removal of old files never removes newer messages.",
     "histories inputs crash_points", "all write, read and reopen sequences up to the stated length, all message bytes and timestamps in the stated range, small maximum file sizes",
     "Tests write a fixed stream and read it back.",
     "tkrzw_message_queue.cc tkrzw_message_queue.h",
     ["MessageQueueImpl::Write/ReadNextMessage/SaveMetadata", "MessageQueue::ReadFileMetadata/ReadNextMessage/RemoveOldFiles"],
     "more files and messages than stated")
prop("C23", "Every file class behaves as one growable byte array",
     "Each file implementation gives, after any sequence of opens, writes, appends, expansions, truncations, synchronizations and reads, exactly the bytes, size, offsets and statuses of a simple byte array; reading out of range fails without effect, and the closed file on disk has exactly the logical size and content.",
     "histories inputs configurations", "all operation sequences up to the stated length with symbolic offsets, sizes and bytes within the stated ranges, for each file class and access option listed",
     "Tests run fixed offsets per class and do not compare classes with each other over arbitrary sequences.",
     "tkrzw_file_mmap.cc tkrzw_file_pos.cc tkrzw_file_std.cc tkrzw_file_poly.cc tkrzw_sys_file_mmap_std.h tkrzw_sys_file_pos_std.h tkrzw_file.h",
     ["Read/Write/Append/Expand/Truncate/TruncateFakely/Synchronize/GetSize/Rename of each class", "block cache (head buffer, block access)"],
     "files larger than the stated sizes; direct I/O alignment of real devices")
prop("C24", "An I/O failure is reported and never corrupts what was stored",
     "If any system call made by an operation fails, that operation or the next synchronization or close reports an error, no memory error occurs, and records stored before are either intact on reopening or the database is reported unhealthy; success is never reported for data that was not stored.",
     "fault_sequences histories", "every single failing system call (write, read, resize, map, sync, open, close, rename) in all short operation sequences",
     "Tests never make a system call fail.",
     "tkrzw_file_mmap.cc tkrzw_file_pos.cc tkrzw_file_std.cc tkrzw_file_util.cc tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc",
     ["status propagation through file and database layers", "cleanup on failed open"],
     "several independent failures at once beyond the stated number")
prop("C25", "Rebuilding changes the layout but never the content",
     "Rebuilding a database, with the same or new tuning parameters, at any moment, leaves exactly the same records, preserves type and opaque metadata, and later operations behave as if it had not happened. Optimization advice never alters content.",
     "histories inputs configurations", "all operation sequences up to the stated length before, between and after rebuilds, all key and value bytes, changes of bucket count, alignment, offset width, update mode, CRC and page parameters",
     "Tests rebuild a few fixed databases.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_tiny.cc tkrzw_dbm_cache.cc",
     ["HashDBMImpl::RebuildImpl and ImportFromFile*", "TreeDBMImpl::Rebuild", "SkipDBM::Rebuild", "on-memory rehash"],
     "rebuild concurrent with other threads except as listed")
prop("C26", "An index is exactly a set of key-value pairs in order",
     "Every index class contains exactly the pairs added and not removed: checks, value lists by key and ordered traversal from any position agree with a set of pairs.",
     "histories inputs", "all sequences of additions, removals and jumps up to the stated length over all key and value bytes",
     "Tests use fixed pairs.",
     "tkrzw_index.h tkrzw_key_comparators.h",
     ["FileIndex, MemIndex, StdIndex, PolyIndex", "pair serialization and pair comparators"],
     "longer sequences")
prop("C27", "Ciphers and compressors give back exactly what was put in",
     "For every input the decompressor returns exactly the bytes that were compressed, with the same key for the ciphers, checks detect damage where promised, and databases using them behave as maps.",
     "inputs", "all inputs up to the stated length for the built-in dummy, RC4 and AES codecs; external compression libraries are outside",
     "Tests take sample texts.",
     "tkrzw_compress.cc tkrzw_compress.h tkrzw_sys_compress_aes.h",
     ["DummyCompressor, RC4Compressor, AESCompressor"],
     "zlib, zstd, lz4 and lzma codecs (external libraries, not encodable here); symbolic cipher keys")
prop("C28", "A read-only session refuses updates and leaves the file untouched",
     "A database or file opened without the writable flag answers every reading operation, refuses every updating operation with a precondition error, and leaves every byte of the file as it was.",
     "histories inputs configurations", "all short operation sequences on a read-only opened database of every class, over all keys and values",
     "Tests try a few operations.",
     "tkrzw_dbm_hash.cc tkrzw_dbm_tree.cc tkrzw_dbm_skip.cc tkrzw_dbm_poly.cc tkrzw_dbm_shard.cc tkrzw_file_mmap.cc tkrzw_file_pos.cc tkrzw_file_std.cc",
     ["writable checks of every operation", "close without metadata save"],
     "longer sequences")
prop("C29", "The C interface gives the results of the C++ interface",
     "Every function of the C language interface has the effect and result of its C++ counterpart, for all key and value bytes including embedded zeros, sets the last status, and returns buffers the caller can release; string helper functions agree with their C++ originals.",
     "histories inputs", "all call sequences up to the stated length over all key and value bytes",
     "The C test calls each function once with fixed text.",
     "tkrzw_langc.cc tkrzw_langc.h",
     ["tkrzw_dbm_*", "tkrzw_dbm_iter_*", "tkrzw_index_*, tkrzw_str_*"],
     "functions not listed in DESIGN.md")
prop("C30", "Export and import reproduce the same records",
     "Exporting a database to another database, to flat records or to tab-separated values and importing the result gives exactly the exported records, and exporting keys gives exactly the keys, for all key and value bytes.",
     "inputs histories", "all record sets up to the stated size over all key and value bytes",
     "Tests export fixed records.",
     "tkrzw_dbm_common_impl.cc tkrzw_dbm_common_impl.h tkrzw_dbm.cc tkrzw_file_util.cc",
     ["ExportDBMToFlatRecords/ImportDBMFromFlatRecords", "ExportDBMToTSV/ImportDBMFromTSV", "FlatRecord/FlatRecordReader", "DBM::Export/Copy"],
     "larger record sets")
prop("C31", "Path and file utilities compute and do exactly what they document",
     "Path normalization, joining and splitting give canonical results for every path, and the whole-file helpers read, write, copy, rename, measure and remove exactly the files named and report failures.",
     "inputs histories", "all paths up to the stated length over the path alphabet, all file contents up to the stated size",
     "Tests have tables of paths.",
     "tkrzw_file_util.cc tkrzw_file_util.h",
     ["NormalizePath, JoinPath, PathToBaseName, PathToDirectoryName, PathToExtension", "ReadFile, WriteFile, WriteFileAtomic, CopyFileData, TruncateFile, RenameFile"],
     "real file systems beyond the modelled POSIX calls")
prop("C32", "Calendar and time conversions are mutually consistent",
     "Converting a time to calendar fields and back is the identity over the supported range, weekday and date strings denote the same instant when parsed again, and durations and differences compose.",
     "inputs", "all seconds within the stated ranges of years",
     "Tests convert listed dates.",
     "tkrzw_time_util.cc tkrzw_time_util.h",
     ["MakeUniversalTime, GetUniversalCalendar, ParseDateStr, ParseDateStrXML, FormatDateSimple/W3CDTF/RFC1123, GetDayOfWeek"],
     "local time zones from the system database")
