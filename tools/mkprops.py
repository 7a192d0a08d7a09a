#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=hook)))

p("C01", "Encodings round-trip and have the documented byte format",
  "Every fixed-width, varint and length-prefixed value that is encoded decodes back to the same value, decoding stops exactly at the end of what was encoded, and encoding only appends to what the destination already held. The bytes are the documented endian-neutral format: fixed-width integers least significant byte first, varints in the shortest base-128 little-endian form, strings (of less than 4 GiB) as their varint length followed by their bytes. The predicted varint length always equals the number of bytes the encoder produces. Any number of threads may encode and decode their own data at once.",
  ["inputs", "histories", "schedules"], "all 32/64-bit values, all byte strings, all sequences of encodings into one buffer with arbitrary prior content",
  "No test covers the encoders at all (there is no coding_test); the cache test only uses 4-byte fixed values.",
  ["util/coding.h", "util/coding.cc"],
  [("Put*/Encode*/VarintLength", "util/coding.cc:9-84, util/coding.h:48-77"), ("Get*/Decode*", "util/coding.cc:86-164, util/coding.h:82-118")],
  ["PutFixed32/64, PutVarint32/64, PutLengthPrefixedSlice, GetVarint32/64, GetLengthPrefixedSlice, VarintLength"])

p("C02", "Decoding arbitrary bytes is bounded and exact",
  "For any byte string and any limit, decoding a varint or a length-prefixed string reads only bytes inside the given range and either fails or yields exactly the value and the end position which the base-128 format defines for those bytes. Truncated encodings, varints that do not end within 5 (32-bit) or 10 (64-bit) bytes, and length prefixes larger than the remaining input are always rejected. A decoded string is a view of the input right after its length, never of other memory. Any number of threads may decode at once, even from the same bytes.",
  ["inputs", "schedules"], "all byte strings and all split points/limits, including high-bit runs, over-long and truncated encodings",
  "Nothing exercises the decoders on malformed input; memory-safety for every input is out of reach of samples.",
  ["util/coding.h", "util/coding.cc"],
  [("limit and shift checks in GetVarint32Ptr/GetVarint64Ptr", "util/coding.cc:86-131"), ("length check in GetLengthPrefixedSlice", "util/coding.cc:155-164")],
  ["GetVarint32, GetVarint64, GetVarint32Ptr, GetVarint64Ptr, GetLengthPrefixedSlice"])

p("C03", "Hashing is a pure, portable function of bytes and seed",
  "The hash of a byte string depends only on its bytes, its length and the seed: it is the same on every call, at every address and alignment and whatever surrounds the bytes, and computing it never reads outside them. For every input it equals the project's Murmur-like reference function (little-endian 4-byte words, then an unsigned-byte tail), whose published vectors the tests contain. Any number of threads may hash at once.",
  ["inputs", "schedules"], "all byte strings of all lengths and alignments, all 32-bit seeds",
  "The one test pins six vectors; every other length class, seed and high-bit byte in the tail or the words is unchecked.",
  ["util/hash.h", "util/hash.cc"],
  [("word loop and tail switch", "util/hash.cc:20-50")], ["Hash()"])

p("C04", "Slices compare and trim as unsigned byte strings",
  "Slice comparison is the unsigned bytewise lexicographic total order in which a proper prefix sorts first, and equality, inequality and prefix tests agree with it for all contents, including embedded NULs and bytes above 0x7f. Slices that are built, copied, trimmed from the front or cleared denote exactly the expected bytes, and no operation reads outside them. Any number of threads may use slices of the same bytes at once.",
  ["inputs", "histories", "schedules"], "all pairs/triples of byte strings (with shared prefixes), all sequences of slice operations",
  "There is no slice test; other tests use it incidentally on short ASCII strings.",
  ["include/lsmdb/slice.h"],
  [("compare/starts_with/==/remove_prefix", "include/lsmdb/slice.h:45-108")], ["Slice"])

p("C05", "A status keeps its category and message through any copying",
  "A status carries its category and its full message (both parts, joined by ': ' when there is a second) unchanged through any sequence of copies, moves, assignments and self-assignments, independently of the buffers it was built from and of what happens to other statuses. Exactly the predicate of its category is true, success prints as 'OK', and every error prints its category's prefix followed by the whole message whatever bytes it contains. No such sequence leaks message storage or frees it twice. Threads that hold their own statuses, even copies of one another, do not disturb each other.",
  ["inputs", "histories", "schedules"], "all message byte strings and sizes, all sequences of construction/copy/move/assignment/destruction over several statuses",
  "One test moves one status of each kind; aliasing, long/binary messages, and mixed copy/move histories are never tried.",
  ["include/lsmdb/status.h", "util/status.cc"],
  [("CopyState/copy and move operations", "util/status.cc:13-22, include/lsmdb/status.h"), ("ToString", "util/status.cc:44-82")],
  ["Status::ToString, Is*, ok"])

p("C06", "Decimal numbers format and parse exactly, without wrap-around",
  "Formatting any unsigned 64-bit number yields its canonical decimal text, appended without disturbing earlier content, and parsing that text followed by any non-digit bytes returns the number and consumes exactly its digits. For any byte string the parser succeeds exactly when the string starts with digits whose whole run has a value that fits in 64 bits, and then returns that value; it never wraps around and never reads outside the input. Any number of threads may format and parse at once.",
  ["inputs", "schedules"], "all 64-bit values; all byte strings, with leading zeros, boundary digit runs around 2^64 and arbitrary tails",
  "The tests probe about 120 numbers near 0 and 2^64; the overflow boundary with leading zeros, other digit positions and arbitrary tails is not covered.",
  ["util/logging.h", "util/logging.cc"],
  [("NumberToString/AppendNumberTo", "util/logging.cc:16-20,36-40"), ("overflow check in ConsumeDecimalNumber", "util/logging.cc:48-80")],
  ["NumberToString, AppendNumberTo, ConsumeDecimalNumber"])

p("C07", "Escaped text is printable, complete and bytewise",
  "Escaping any byte string yields only printable ASCII, in which every printable byte stands for itself and every other byte appears as \\x followed by its two lower-case hexadecimal digits, in order and with nothing dropped. Escaping into a non-empty string leaves its earlier content alone, and escaping a concatenation equals concatenating the escapes. Any number of threads may escape at once.",
  ["inputs", "schedules"], "all byte strings, all prior contents of the destination",
  "No test calls the escaping functions.",
  ["util/logging.h", "util/logging.cc"],
  [("AppendEscapedStringTo/EscapeString", "util/logging.cc:22-34,42-46")], ["EscapeString, AppendEscapedStringTo"])

p("C08", "The pseudo-random generator is reproducible and in range",
  "From any 32-bit seed the generator produces exactly the minimal-standard sequence x <- 16807*x mod (2^31-1) started from the seed's low 31 bits (degenerate seeds are replaced by 1), so it never gets stuck and equal seeds give equal sequences. Derived draws stay in their documented ranges and proportions: uniform draws below n, one-in-n events about once in n, skewed draws below 2^max_log with a bias to small values. Generators used by different threads do not influence each other.",
  ["inputs", "histories", "schedules"], "all seeds, all call sequences, all n > 0 and max_log in 0..30",
  "The generator has no test; other tests only use it as a data source.",
  ["util/random.h"], [("Next/Uniform/OneIn/Skewed", "util/random.h:19-62")], ["Random"])

p("C09", "Arena blocks are disjoint, aligned, stable and accounted for",
  "For every sequence of request sizes, aligned and unaligned, each block an arena hands out is fully usable, keeps the bytes written to it until the arena is destroyed and overlaps no other block; aligned requests are aligned to at least 8 bytes and to pointer size. Reported usage never decreases, is never less than the total requested nor more than a small constant factor above it, matches the memory really obtained, and may be read by other threads at any time. Destroying the arena returns all of its memory.",
  ["inputs", "histories", "schedules"], "all sequences of positive request sizes around the quarter-block and block boundaries; concurrent usage readers",
  "The single test runs one fixed pseudo-random size mix, never checks alignment explicitly or overlap other than by content, and has no concurrent reader.",
  ["util/arena.h", "util/arena.cc"],
  [("Allocate fast path", "util/arena.h:53-65"), ("AllocateAligned/AllocateFallback/AllocateNewBlock", "util/arena.cc:20-66")],
  ["Arena::Allocate, AllocateAligned, MemoryUsage, destructor"])

p("C10", "The skip list behaves as an ordered set",
  "After any sequence of insertions of distinct keys, in any order and under any strict total comparator, membership tests answer exactly for the inserted keys, and iterators visit exactly those keys in comparator order forwards and backwards. Seeking lands on the first key not less than the target, stepping past either end makes the iterator invalid, and iterators opened earlier stay usable while keys are added. A lookup makes a number of comparisons that grows about logarithmically with the number of keys.",
  ["inputs", "histories"], "all insertion orders, key sets and comparators; all interleavings of iterator moves with insertions",
  "skiplist_test contains no test case, so nothing ever inserts into a skip list (an always-failing assertion in the insertion path went unnoticed).",
  ["db/skiplist.h", "util/arena.h", "util/random.h"],
  [("FindGreaterOrEqual/FindLessThan/FindLast", "db/skiplist.h:260-330"), ("Insert/RandomHeight", "db/skiplist.h:241-252,344-376"), ("Iterator", "db/skiplist.h:189-239")],
  ["SkipList::Insert, Contains, Iterator"])

p("C11", "Skip-list reads are correct at every moment of an insertion",
  "While one writer inserts, lock-free readers at any point of the insertion see every key whose insertion completed before the read began, see no key that was never inserted, see keys fully initialised and in strictly increasing order, and never crash or loop. An iterator positioned before the insertion keeps moving correctly during and after it. The concurrent accesses are free of data races.",
  ["schedules", "histories"], "all insertion histories with a reader run at every instruction of the writer's insertion, and free-running reader/writer threads",
  "No test runs a reader concurrently with a writer; such bugs live in a few-instruction window.",
  ["db/skiplist.h"],
  [("release publication / acquire loads, bottom-up linking", "db/skiplist.h:150-171,369-375"), ("max_height_ publication before links", "db/skiplist.h:355-367")],
  ["SkipList::Contains, Iterator under a concurrent Insert"])

p("C12", "A cache lookup returns the latest live value of that key",
  "A lookup returns either a miss or a handle to the value most recently inserted under exactly that key (byte-for-byte, including empty and binary keys, whatever their hashes), and it never hits after that key was erased or before it was inserted. A handle keeps denoting its own value until released, whatever is inserted, replaced, erased, pruned or evicted meanwhile, and the cache keeps its own copy of the key. With enough capacity no lookup of an inserted, unerased key misses, however many entries there are.",
  ["histories", "inputs"], "all histories of insert/lookup/release/erase/prune over arbitrary keys, including colliding hashes and thousands of entries (table growth)",
  "The tests use 4-byte integer keys and about ten fixed histories; replacement and erasure in long collision chains and across table growth are not reached.",
  ["util/cache.cc", "include/lsmdb/cache.h"],
  [("HandleTable FindPointer/Insert/Remove/Resize", "util/cache.cc:94-178"), ("LRUCache Insert/Lookup/Erase", "util/cache.cc:291-371"), ("sharding by hash", "util/cache.cc:391-450")],
  ["Cache::Insert, Lookup, Value, Erase"])

p("C13", "Cached values are deleted exactly once, and never while in use",
  "Every inserted value is passed to its own deleter exactly once, together with the key it was inserted under. This never happens while a caller holds a handle to it or while it can still be looked up, and happens as soon as it is neither cached nor held: at the release of the last handle, at replacement, erasure, pruning or eviction, or at the latest when the cache is destroyed. No entry's memory outlives the cache and its handles.",
  ["histories"], "all histories of insert/lookup/release/erase/prune/destroy with handles held over replacement, erasure and eviction",
  "A handful of fixed histories is tested, and none destroys a populated cache while counting deletions.",
  ["util/cache.cc", "include/lsmdb/cache.h"],
  [("reference counts Ref/Unref/FinishErase", "util/cache.cc:252-273,353-366"), ("destructor", "util/cache.cc:238-250")],
  ["deleter callbacks"])

p("C14", "Cache eviction is least-recently-used, pin-safe and within capacity",
  "An entry leaves the cache for lack of space only when an insertion finds its partition of the cache over its share of the capacity, only while nobody holds it, and in order of least recent use first (use lasts until the last handle is released). When an insertion returns, a partition exceeds its share only by entries in use, a cache filled with unit-charge entries holds between its capacity and the capacity plus one entry per partition, and zero capacity caches nothing. Pruning removes exactly the entries not in use, and the reported total charge always equals the sum of the charges of the entries that can be looked up.",
  ["histories", "configurations"], "all capacities (including 0, tiny and huge) and all histories with arbitrary charges and held handles",
  "The eviction tests are two fixed histories with unit or two-valued charges and one capacity.",
  ["util/cache.cc", "include/lsmdb/cache.h"],
  [("eviction loop in Insert", "util/cache.cc:324-344"), ("lru_/in_use_ lists", "util/cache.cc:252-289"), ("Prune, TotalCharge", "util/cache.cc:198-201,373-384"), ("capacity split", "util/cache.cc:393-398")],
  ["Lookup misses/hits, TotalCharge, deleter order"])

p("C15", "The cache is safe and exact under concurrent use",
  "When many threads insert, look up, release, erase, prune and read the total charge of one cache at once, every lookup that hits returns a value that was inserted under that key, no value is deleted while any thread holds it, and each is deleted exactly once. Afterwards the cache is in a state some sequential order of the operations could have left: charges add up and capacity holds. Numeric ids handed out are distinct across all threads, and there are no data races.",
  ["schedules", "histories"], "all interleavings of generated multi-threaded operation programs",
  "All existing cache tests are single-threaded.",
  ["util/cache.cc"], [("per-shard mutex", "util/cache.cc:213-228,291-384"), ("id mutex", "util/cache.cc:421-424")],
  ["Cache API from several threads"])

p("C16", "The in-memory environment is a faithful file store",
  "After any sequence of creating, overwriting, appending, reopening, renaming, removing, listing, sizing and reading, files of the in-memory environment hold exactly the bytes written, in order, and existence, size and listings agree with that; operations on missing names fail without effect, opening one reports not-found, and renaming a file onto itself leaves it alone. Reads at any offset and length return exactly the bytes that exist there, skipping stops at the end of the file, and a file opened earlier stays usable after being renamed or removed. Once the environment and all open files are gone, all memory is released.",
  ["histories", "inputs"], "all operation sequences over several names and open handles, write and read sizes around the internal block size",
  "The tests are five fixed scripts with one or two files; appending to a new file, self-rename, reads straddling blocks and removal with open handles are not tried.",
  ["helpers/memenv/memenv.cc", "include/lsmdb/env.h"],
  [("FileState Read/Append/Truncate/refcount", "helpers/memenv/memenv.cc:24-149"), ("InMemoryEnv map operations", "helpers/memenv/memenv.cc:222-385")],
  ["Env file operations"])

p("C17", "The in-memory environment is safe under concurrent use",
  "While one thread appends to a file and others read it, every read returns bytes that were appended at that position, and sizes never shrink or exceed what was appended. Threads that concurrently create, rename, remove, list and open files obtain results consistent with some order of those operations: no file or byte is lost, invented or freed while open. There are no data races.",
  ["schedules", "histories"], "all interleavings of generated reader/writer/metadata threads",
  "All existing tests are single-threaded.",
  ["helpers/memenv/memenv.cc"], [("mutex_ over the map", "helpers/memenv/memenv.cc:383"), ("blocks_mutex_, refs_mutex_", "helpers/memenv/memenv.cc:30-52,143-148")],
  ["Env file operations from several threads"])

p("C18", "The POSIX environment stores and returns exactly the bytes written",
  "For every sequence of appends of any sizes, flushes, syncs, closes, reopenings for append, overwrites, renames and removals, a file read back sequentially, at random offsets or through other programs holds exactly the appended bytes in order: all of them once flushed, synced or closed (or the writer destroyed), and a prefix of them before. Sequential reads and skips deliver the file from the current position and skipping stops at the end; a random read returns the bytes that exist in the requested range (an error or nothing if it lies wholly past the end). Existence, sizes and listings agree with the contents.",
  ["histories", "inputs"], "all operation sequences and sizes around the 64 KiB write buffer, all read offsets/lengths including past the end and near 2^64",
  "No test opens a file of the POSIX environment at all.",
  ["util/env_posix.cc", "include/lsmdb/env.h"],
  [("PosixWritableFile buffering", "util/env_posix.cc:246-344"), ("PosixSequentialFile", "util/env_posix.cc:104-139"), ("PosixRandomAccessFile / PosixMmapReadableFile", "util/env_posix.cc:146-244"), ("PosixEnv file operations", "util/env_posix.cc:502-631")],
  ["Env file operations, raw read of the file"])

p("C19", "Partial and failing writes never corrupt or hide data loss",
  "However the operating system splits, interrupts or fails the writes beneath it, a writable file that has reported success for every call contains, after a flush, sync or close, exactly the bytes appended, once and in order; interrupted and partial writes are continued transparently. A write, sync or close that the system fails is reported by the call during which it happens. Whatever happens, the file never holds bytes that were not appended, nor appended bytes twice or out of order.",
  ["fault_sequences", "histories", "inputs"], "all sequences of append/flush/sync/close with every placement of short writes, EINTR, ENOSPC/EIO at write, sync and close",
  "No test writes through the POSIX environment and no test injects faults into it.",
  ["util/env_posix.cc"],
  [("WriteUnbuffered retry loop", "util/env_posix.cc:331-344"), ("Append/FlushBuffer/Close/Sync", "util/env_posix.cc:262-329")],
  ["status of each call; raw file content"])

p("C20", "After a successful sync the data survives a crash",
  "When syncing a writable file reports success, everything appended to it so far (but for bytes whose loss an earlier call reported) has been written and then forced to stable storage, so a crash at any later point cannot lose it. For a manifest file (base name starting with MANIFEST) the directory that contains it is forced to stable storage first, before its own data is, so that no surviving manifest names files that do not. A failure of any of these steps makes the sync fail.",
  ["crash_points", "histories", "fault_sequences"], "all append/flush/sync histories and file names (manifest or not, with or without directory part), a crash after every system call",
  "Nothing tests Sync; durability is invisible to tests that only read files back.",
  ["util/env_posix.cc"],
  [("Sync, SyncDirIfManifest, SyncFd", "util/env_posix.cc:305-322,346-389"), ("Dirname/Basename/IsManifest", "util/env_posix.cc:394-432")],
  ["order of write/fsync system calls"])

p("C21", "Random reads work beyond the resource limits, which always hold",
  "Under every configured limit on memory-mapped files and on permanently open read-only descriptors, any number of random-access files can be open at once and all return the same data. The number of files mapped and of descriptors held at any time stays within the limits, also when many threads open, read and close files. One file may be read by many threads at once. Closing a file, or failing to open one, gives its capacity back, and nothing stays open or mapped once all are closed.",
  ["configurations", "histories", "schedules"], "all small limit pairs, all histories of open/read/close (including failing opens), several threads",
  "No test opens random-access files of the POSIX environment; the limit-setting helper is unused.",
  ["util/env_posix.cc", "util/env_posix_test_helper.h"],
  [("Limiter", "util/env_posix.cc:72-98"), ("NewRandomAccessFile selection", "util/env_posix.cc:514-546"), ("release in destructors", "util/env_posix.cc:160-166,223-226")],
  ["/proc/self/maps, /proc/self/fd, Read results"])

p("C22", "A locked file has one holder across threads and processes",
  "At any time at most one holder in all processes and threads has a given file locked: a lock attempt succeeds exactly when nobody holds it, fails immediately otherwise without disturbing the holder's lock, and on failure yields no lock object. Unlocking, or the holder process ending in any way, makes it available again. This holds for every interleaving of attempts, unlocks and process exits.",
  ["schedules", "histories", "fault_sequences"], "all histories of lock/unlock/exit/kill by several processes and threads on a few names, with thread switches at every system call inside lock and unlock",
  "The only lock test calls the in-memory no-op; no test locks a real file, lets alone from two processes.",
  ["util/env_posix.cc"],
  [("LockFile/UnlockFile", "util/env_posix.cc:633-669"), ("PosixLockTable", "util/env_posix.cc:480-500"), ("fcntl lock", "util/env_posix.cc:434-444")],
  ["LockFile results in several processes; F_GETLK from another process"])

p("C23", "Scheduled and started work runs exactly once",
  "Every function handed to the environment's background scheduler or started as a thread runs exactly once, with the argument it was given, whichever threads submit it, however many are pending, and also when submitted from within running work. Submitting never blocks on the execution of work, and what a function captured is released once it has run. Submission and execution are free of data races.",
  ["schedules", "histories"], "all generated programs of submitting threads, nested submissions and bursts/pauses",
  "No test calls Schedule or StartThread.",
  ["util/env_posix.cc"],
  [("Schedule / BackgroundThreadMain", "util/env_posix.cc:795-832"), ("StartThread", "util/env_posix.cc:674-678")],
  ["per-item execution counters"])

p("C24", "Every log call appends one complete record",
  "Each call to a file logger appends, visible to other readers when it returns, exactly one record: time stamp and thread id of the call, then the complete formatted message of any length the C library can format, ended by a newline that is added only if the message lacks one. Existing content of the log file is kept, records of concurrent threads are never mixed or lost, and logging to no logger does nothing. No message length overruns a buffer or truncates the record.",
  ["inputs", "histories", "schedules"], "all message lengths around the stack-buffer size and beyond, all formats, reopened files, several threads",
  "No test creates a POSIX logger.",
  ["util/posix_logger.h", "util/env_posix.cc", "util/env.cc"],
  [("Logv two-pass buffer", "util/posix_logger.h:32-121"), ("NewLogger append mode", "util/env_posix.cc:701-719")],
  ["content of the log file"])

p("C25", "Failures of the operating system are reported and leak nothing",
  "Whenever the system fails an operation of the POSIX environment, the operation returns a non-success status that is not-found exactly when the named file or directory does not exist and an I/O error otherwise, yields no object, and leaves the names it was given as they were; reads interrupted by signals are retried. No operation, failed or successful, leaks a descriptor or a mapping once its objects are destroyed. Descriptors held by the environment are closed in programs the process executes.",
  ["fault_sequences", "histories", "inputs"], "all environment operations with natural failures (missing, directory, not a directory, no permission, name too long) and injected system-call errors at each call",
  "No test of the POSIX environment exists and no fault is ever injected.",
  ["util/env_posix.cc"],
  [("PosixError mapping", "util/env_posix.cc:59-65"), ("error paths of each operation", "util/env_posix.cc:502-719"), ("O_CLOEXEC base flags", "util/env_posix.cc:50-55")],
  ["Status category, result pointers, /proc/self/fd"])

p("C26", "Whole-file write and read helpers are exact or report failure",
  "On any environment, writing a string to a file and reading the file back yields exactly that string, for any contents and length and however the environment fragments its reads, replacing whatever the file or the destination string held before. If any step beneath fails, the helper returns that failure; a failed write leaves no file behind, and success means that all data was appended and the file closed (and synced first in the syncing variant).",
  ["inputs", "fault_sequences", "configurations"], "all contents; in-memory, POSIX and synthetic environments with arbitrary read fragmentation and a failure at every step",
  "One test writes two short strings to the in-memory environment; nothing reads a file back with the helper and no step ever fails.",
  ["util/env.cc", "include/lsmdb/env.h"],
  [("DoWriteStringToFile", "util/env.cc:45-64"), ("ReadFileToString", "util/env.cc:76-96")],
  ["Status and file contents"])

p("C27", "Environment wrappers forward every call faithfully",
  "Each operation invoked on an environment wrapper performs exactly that operation once on the wrapped environment, with the same arguments, and hands back its status, its outputs and nothing else. The in-memory environment does the same for everything that is not file storage: scheduling, threads, time and sleeping go to its base environment, and file operations never do.",
  ["inputs", "histories"], "all operations with arbitrary arguments, statuses and outputs, through stacked wrappers",
  "Tests use one wrapper for two operations only.",
  ["include/lsmdb/env.h", "helpers/memenv/memenv.cc"],
  [("EnvWapper forwarding methods", "include/lsmdb/env.h:275-345"), ("InMemoryEnv overrides", "helpers/memenv/memenv.cc:222-385")],
  ["calls recorded by a base environment"])

p("C28", "Locks exclude each other and waits lose no wake-up",
  "At most one thread at a time is between acquiring and releasing one of the library's mutexes, and a scoped lock is released on every way out of its scope. A condition wait lets others take the mutex while it blocks and holds it again when it returns; a signal issued while threads wait wakes at least one, and a broadcast wakes all.",
  ["schedules", "histories"], "all generated multi-threaded programs of critical sections, bounded-buffer waits, signals and broadcasts",
  "No test uses the synchronisation layer directly or with more than one thread.",
  ["port/port_stdcxx.h", "util/mutexlock.h"],
  [("Mutex/CondVar", "port/port_stdcxx.h:44-76"), ("MutexLock", "util/mutexlock.h")],
  ["counters protected by the mutex, progress of waiters"])

p("C29", "Clock, sleep and test directory behave as specified",
  "Successive readings of the environment's microsecond clock never differ from the elapsed system time, a sleep lasts at least the requested time, and negative or zero requests return promptly. The test directory exists when reported, is the location configured at the time of the call (and the same on every call while nothing is configured), and the default environment is one and the same object for every caller and thread.",
  ["inputs", "schedules", "configurations"], "all small sleep durations, configured locations (existing or not), concurrent first callers",
  "No test looks at the clock, at sleeping or at the POSIX test directory.",
  ["util/env_posix.cc"],
  [("NowMicros/SleepForMicroseconds/GetTestDirectory", "util/env_posix.cc:680-730"), ("SingletonEnv/Env::Default", "util/env_posix.cc:848-903")],
  ["Env::NowMicros, SleepForMicroseconds, GetTestDirectory, Default"])

p("C30", "The library works from the first initialiser to the last exit handler",
  "Everything the library offers (the default environment, the in-memory one, caches, skip lists and arenas, text and codes) can be used by a process at any moment of its life: by static initialisers before main, in main, in exit handlers whenever they were registered, in static destructors, and by threads that still run while the process exits. What was opened, locked, logged to, cached or appended in one of these phases goes on working, with the same results, in the later ones, and the process ends normally.",
  ["histories", "schedules"], "all sequences of operations over the phases of a process, with objects that live across phases and a detached thread",
  "Every test runs between the start and the end of main, and tests never look at what happens at exit.",
  ["util/env_posix.cc", "util/status.cc", "util/logging.cc", "util/cache.cc", "helpers/memenv/memenv.cc"],
  [("SingletonEnv storage that is never destroyed", "util/env_posix.cc:848-903"), ("constants initialised without code", "util/env_posix.cc:35-57")],
  ["behaviour of a process before main and during exit"])

p("C31", "Created files get standard permissions; process state is left alone",
  "Whatever the file creation mask, files the POSIX environment creates (by writers, appenders, loggers, locks and the whole-file helpers) get mode 0644 and directories 0755, less the mask; files that exist keep their mode when they are overwritten, appended to, locked or renamed, and reading creates nothing. No operation changes the state of the process that is not the library's: its mask, working directory, environment variables, locale, signal dispositions and mask, resource limits, rounding mode, priority, and its other descriptors.",
  ["inputs", "histories", "configurations"], "all file creation masks, modes of existing files, and histories of environment calls",
  "No test looks at permissions or at process-wide state.",
  ["util/env_posix.cc"],
  [("modes of open and mkdir", "util/env_posix.cc:369-760"), ("no process-wide side effects", "util/env_posix.cc, util/posix_logger.h")],
  ["stat modes; process state before and after each call"])

p("C32", "Optional platform features are exact or report that they are absent",
  "The port's compression either reports that it did nothing, leaving its output alone (and then uncompresses nothing either), or produces data whose reported length is the original's and which uncompresses to exactly the original; its accelerated checksum is either absent (always zero) or the CRC-32C extension of the initial value by the bytes, for every input and split; a heap profile is delivered only when it is reported as available. Inputs are never changed and nothing outside them is read.",
  ["inputs", "configurations"], "all byte strings, prior outputs, initial checksums and splits",
  "No test calls the port's optional functions.",
  ["port/port_stdcxx.h", "port/port_config.h.in"],
  [("Snappy_*, AcceleratedCRC32C, GetHeapProfile", "port/port_stdcxx.h:79-141")],
  ["results and outputs of the port functions"])

p("C33", "The POSIX environment is safe under concurrent use",
  "Any number of threads may call the POSIX environment at once without synchronising. A thread that works on files of its own sees what it would see alone: the same contents, sizes, listings, statuses and messages, whatever others do meanwhile. One random-access file may be read by many threads. When several threads create the same directory, or rename or remove the same file, exactly one is told that it did. There are no data races, and nothing stays open afterwards.",
  ["schedules", "histories", "configurations"], "all interleavings of generated threads' operations on own and shared names",
  "No test uses the POSIX environment's files at all, let alone from several threads.",
  ["util/env_posix.cc", "util/posix_logger.h", "util/env.cc"],
  [("state of PosixEnv: lock table, limiters", "util/env_posix.cc:494-520,780-800"), ("file operations", "util/env_posix.cc:522-775")],
  ["results of each thread's calls; files read with raw system calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
