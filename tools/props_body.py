p("C01","Every inserted value is fetched back byte for byte; absent keys are absent",
 "After any sequence of successful inserts, flushes, closes and reopens, fetching an inserted key invokes the callback exactly once with exactly the bytes and size that were inserted, whether the item is still buffered, in a bucket, or in a spill record. Fetching a key that was never inserted reports key_not_found and does not invoke the callback, even when its hash collides with stored keys.",
 ["inputs","histories"],"all keys, values, hash functions (including full collisions) and all placements of flush/close/reopen between operations",
 "The tests insert pseudo-random keys under one hash function and flush on a timer; collisions, chains of several spills, and fetches around a split with chosen hashes are never produced deliberately.",
 [I+"impl/basic_store.ipp",I+"detail/bucket.hpp",I+"detail/pool.hpp",I+"detail/cache.hpp"],
 [("basic_store::fetch",I+"impl/basic_store.ipp"),("basic_store::commit/split/load",I+"impl/basic_store.ipp"),("maybe_spill",I+"detail/bucket.hpp")],
 [("p0/p1","buffered items",I+"basic_store.hpp"),("c1","cached modified buckets",I+"basic_store.hpp")],["fetch callback","error_code"])
p("C02","Duplicate keys are refused and leave the original value intact",
 "Inserting a key that is already in the database, whether buffered, committed to a bucket, or held in a spill record, reports key_exists and changes nothing; the original value stays. Inserting a new key is never refused as a duplicate, even if its hash equals that of other keys.",
 ["inputs","histories"],"all keys and hash functions, all positions of the earlier copy (buffered, bucket, each spill of a chain), all flush placements",
 "Tests re-insert pseudo-random keys with well-spread hashes; equal hashes with different keys and duplicates deep in a spill chain do not occur.",
 [I+"impl/basic_store.ipp"],[("basic_store::insert/exists",I+"impl/basic_store.ipp"),("bucket lower_bound",I+"detail/bucket.hpp")])
p("C03","A crash at any point leaves, after recovery, all or none of the commit",
 "If the process or machine stops at any instant during open, insert, flush or close, then reopening the database succeeds and shows exactly the items of the last completed commit, or those plus all items of the commit in progress. Writes not yet synced may be lost or torn in any way the sync contract allows, and nothing synced earlier is lost.",
 ["crash_points","histories"],"every system call boundary, every torn length of every unsynced write, every subset of unsynced key-file writes persisted",
 "The recover test makes the n-th I/O return an error (or write half) but never loses or reorders unsynced writes, tears at other lengths, or checks which items survive.",
 [I+"impl/basic_store.ipp",I+"impl/recover.ipp"],[("write-ahead log: log synced before key file is touched",I+"impl/basic_store.ipp"),("recover: replay log, truncate files",I+"impl/recover.ipp")])
p("C04","Recovery may itself be interrupted and repeated",
 "If a crash or an I/O failure interrupts recovery of a database at any point, running recovery again completes and yields the same database that an uninterrupted recovery would have produced.",
 ["crash_points","fault_sequences"],"every system call of the recovery as crash or failure point, torn and lost unsynced writes, repeated interruption",
 "The recover test retries recovery after an injected error return but keeps every write that returned, and only checks that verify passes.",
 [I+"impl/recover.ipp"],[("recover: log erased only after files are synced",I+"impl/recover.ipp")])
p("C05","I/O failures are reported, stick, and never corrupt committed data",
 "When any file operation fails during open, insert, fetch, flush, close, recover or rekey, the failure is reported to the caller: a failed commit makes every later insert, fetch and the close return that error. No fetch ever succeeds with wrong bytes, and reopening after the fault is gone shows every item of the last successful commit.",
 ["fault_sequences","histories"],"every file operation as failure point, with every partial transfer length of the failing write; all small histories",
 "fail_file stops at the n-th read/write/sync/trunc of a fixed history and skips failures of open, create, size and erase; it does not check what data survives.",
 [I+"impl/basic_store.ipp",I+"impl/recover.ipp",I+"impl/rekey.ipp"],[("ec_/ecb_ sticky error",I+"impl/basic_store.ipp"),("commit rollback info kept in the log",I+"impl/basic_store.ipp")])
p("C06","The data file is append-only: committed bytes never change",
 "No insert, flush, split, spill, close, reopen or rekey ever modifies or removes a byte of the data file that belongs to a completed commit; new records are only appended, and recovery truncates it only to the size it had at the last completed commit.",
 ["histories","crash_points"],"all small histories with splits and spills, all crash points followed by recovery",
 "Tests only look at the data through fetch; they never compare data-file bytes before and after operations.",
 [I+"impl/basic_store.ipp",I+"detail/bulkio.hpp",I+"impl/recover.ipp",I+"impl/rekey.ipp"],[("bulk_writer starts at end of file",I+"detail/bulkio.hpp"),("recover trunc to DataFileSize",I+"impl/recover.ipp")])
p("C07","After any commit the files match the documented on-disk format",
 "After any history, once all inserts are committed, the key and data files satisfy the documented format: headers with the documented fields, one data record per inserted item in big-endian layout, and every item referenced exactly once, from the bucket (or a spill of the bucket) that linear hashing assigns to its hash. Bucket entries are sorted by hash, carry the right offset, size and hash, and no bucket exceeds its capacity.",
 ["inputs","histories"],"all hash functions, keys, values and flush placements within the bounds, checked by a parser written from the format documentation",
 "The only oracle in the tests is the library's own verify, which shares the code under test, run on one pseudo-random population.",
 [I+"impl/basic_store.ipp",I+"detail/bucket.hpp",I+"detail/format.hpp",I+"detail/field.hpp"],[("commit/split/maybe_spill",I+"impl/basic_store.ipp"),("field encodings",I+"detail/field.hpp")])
p("C08","File headers and fields encode and decode exactly as documented",
 "For every field value in range, the data, key and log file headers and all integer fields are written in the documented byte layout (big-endian, documented widths and order) and read back to the same values, so databases are portable across builds and versions.",
 ["inputs"],"all values of all header fields and of 8/16/24/32/48/64-bit integers",
 "Tests write and read with the same code, so a symmetric layout change passes, and only a few concrete values occur.",
 [I+"detail/format.hpp",I+"detail/field.hpp",I+"detail/stream.hpp"],[("read/write of headers",I+"detail/format.hpp"),("readp/write of fields",I+"detail/field.hpp")])
p("C09","Files that do not belong together or are not NuDB files are refused",
 "Opening refuses, with an error and without modifying the files, any data or key file whose type, version, key size, load factor, block size or hash fingerprint is invalid, and any pair whose uid, appnum or key size differ; a valid matching pair opens and reports the stored appnum, key size and block size.",
 ["inputs"],"all values of all header fields of both files",
 "No test opens a mismatching or damaged pair.",
 [I+"detail/format.hpp",I+"impl/basic_store.ipp",I+"impl/recover.ipp"],[("verify(dat/key headers)",I+"detail/format.hpp"),("basic_store::open",I+"impl/basic_store.ipp")])
p("C10","Linear hashing places and splits every hash consistently",
 "For every hash and every bucket count, the bucket index is below the bucket count, and adding one bucket moves hashes only from the split bucket to the new bucket; and ceil_pow2 gives the least power of two not below its argument. While a database stays open the table grows by one bucket each time the committed items pass the configured load factor times the capacity, so average occupancy stays within one split of the configured load.",
 ["inputs","configurations"],"all 48-bit hashes, all bucket counts up to 2^32, all load factors and block sizes",
 "Tests use a handful of bucket counts and check no index arithmetic or growth directly.",
 [I+"detail/bucket.hpp",I+"detail/format.hpp",I+"impl/basic_store.ipp"],[("bucket_index",I+"detail/bucket.hpp"),("ceil_pow2",I+"detail/format.hpp"),("frac_/thresh_",I+"impl/basic_store.ipp")])
p("C11","Bucket operations keep entries sorted, exact and complete",
 "From any valid bucket, inserting an entry keeps all earlier entries and adds exactly the new one with its full 48-bit offset, 32-bit size and 48-bit hash, in hash order; erasing removes exactly the chosen entry; searching returns the first entry whose hash is not less than the given one; writing out and reading back in full or compact form preserves entries and spill offset.",
 ["inputs"],"all valid bucket contents up to capacity and all entry values, as one inductive step",
 "Only exercised indirectly, with offsets below 2^24 and random hashes.",
 [I+"detail/bucket.hpp"],[("insert/erase/lower_bound/read/write",I+"detail/bucket.hpp")])
p("C12","Buffered file streaming preserves every byte and its position",
 "Writing records of any sizes through the buffered writer leaves exactly those bytes, in order and without gaps, at the offsets the writer reported, for any buffer size. Reading through the buffered reader returns exactly the file's bytes for any request sizes and reports short_read exactly when a request would pass the end.",
 ["inputs","configurations"],"all sequences of request sizes up to the bound, all buffer sizes, all file contents",
 "Buffers in the tests are 128 KB and more, so refill, grow and move paths are hit at a few alignments only.",
 [I+"detail/bulkio.hpp",I+"detail/buffer.hpp"],[("bulk_reader::prepare",I+"detail/bulkio.hpp"),("bulk_writer::prepare/flush",I+"detail/bulkio.hpp")])
p("C13","The POSIX file layer transfers whole ranges or reports the error",
 "For any behaviour of the operating system (short transfers, EINTR, end of file, errors), a read or write of n bytes at an offset either transfers exactly those n bytes at that offset or reports an error; a read past the end reports short_read; interrupted calls are retried, other errors are reported unchanged, and no descriptor is leaked or closed twice.",
 ["fault_sequences","inputs"],"all sequences of system-call results up to the bound",
 "A real file system returns full transfers and never EINTR, so the retry loops run once.",
 [I+"impl/posix_file.ipp",I+"posix_file.hpp"],[("read/write/sync/trunc loops",I+"impl/posix_file.ipp")])
p("C14","Recovery applies only a complete, matching log and refuses any other",
 "Recovery with no log, or with a log shorter than its header, leaves the key and data files unchanged and removes the log; with a log whose header does not match the database it reports an error and changes neither file; with a valid log, whole or cut off anywhere after the header, it restores exactly the logged buckets and file sizes.",
 ["inputs","crash_points"],"all log header field values, all cut-off lengths, all logged bucket contents within the bound",
 "Tests only recover logs the library wrote in the same run, cut at I/O boundaries.",
 [I+"impl/recover.ipp",I+"detail/format.hpp"],[("recover",I+"impl/recover.ipp"),("verify(key, log headers)",I+"detail/format.hpp")])
p("C15","Rekey rebuilds a complete, equivalent key file from the data file alone",
 "For any data file, rekey with any valid block size, load factor and buffer size produces a key file with which every item is found with its original value, no other key is found, and verify passes; records already in the data file are unchanged and old spill records are skipped.",
 ["inputs","configurations"],"all hash functions, item populations, block sizes and buffer sizes within the bounds, including several passes and new spills",
 "One population, one buffer size at a time, random hashes.",
 [I+"impl/rekey.ipp"],[("rekey passes and chunks",I+"impl/rekey.ipp"),("maybe_spill",I+"detail/bucket.hpp")])
p("C16","An interrupted rekey never damages the data file",
 "If rekey stops at any point, by crash or by I/O failure, running recovery afterwards restores the data file to its contents before the rekey, and no partially built key file is ever accepted as valid; once rekey has reported success its result survives a crash.",
 ["crash_points","fault_sequences"],"every system call of rekey as crash or failure point, torn and lost unsynced writes",
 "The rekey test injects error returns only and keeps all completed writes.",
 [I+"impl/rekey.ipp",I+"impl/recover.ipp"],[("rekey log with KeyFileSize 0",I+"impl/rekey.ipp"),("recover: erase key file",I+"impl/recover.ipp")])
p("C17","Verify accepts every consistent database and reports every broken one",
 "Verify succeeds on every database the library produces, with counts of keys, values, buckets, spills and bytes equal to the true ones, by either algorithm and any buffer size. It reports an error when a value is not referenced by its bucket, when a bucket entry does not match a value, or when headers disagree.",
 ["inputs","configurations"],"all populations and buffer sizes within the bounds; all single-field corruptions of bucket entries and record headers",
 "Verify is only run on good databases with two buffer sizes.",
 [I+"impl/verify.ipp",I+"verify.hpp"],[("verify_normal",I+"impl/verify.ipp"),("verify_fast",I+"impl/verify.ipp")])
p("C18","Visit reports every item exactly once, in file order",
 "Visiting a data file calls the callback once per stored item, in insertion order of the file, with the exact key and value, and never for spill records; it stops at the first error set by the callback and reports an error for a file that ends inside a record.",
 ["inputs","histories"],"all data files within the bounds, all truncation points, all callback error positions",
 "One population; no spill records checked, no truncation, no callback error.",
 [I+"impl/visit.ipp",I+"detail/bulkio.hpp"],[("visit",I+"impl/visit.ipp")])
p("C19","Create either makes a usable database as requested or leaves nothing",
 "Create with valid arguments makes a database that opens with exactly the requested appnum, uid, salt, key size and block size; with invalid arguments, an existing file or an I/O failure it reports an error, leaves every pre-existing file untouched and leaves no file it made itself.",
 ["inputs","fault_sequences"],"all argument values, all combinations of pre-existing files, every failing system call",
 "One valid and one invalid argument set are tried.",
 [I+"impl/create.ipp"],[("argument checks and cleanup",I+"impl/create.ipp")])
p("C20","Concurrent fetch, insert and commit behave as if executed one at a time",
 "While other threads insert and commits run, a fetch of a key whose insert completed earlier always finds its exact value, a fetch of a key not inserted finds nothing, two concurrent inserts of one key have exactly one winner, and no schedule deadlocks.",
 ["schedules"],"all interleavings at lock and file-operation granularity, within the stated numbers of threads, operations and preemptions",
 "The tests are single-threaded apart from the background flush, whose timing is not controlled.",
 [I+"impl/basic_store.ipp",I+"detail/gentex.hpp"],[("shared mutex m_, insert mutex u_, generation lock g_",I+"basic_store.hpp"),("gentex",I+"detail/gentex.hpp")])
p("C21","A generation fence waits for every earlier reader and for no later one",
 "When the commit fence finishes, every reader that entered before the fence started has left; readers entering afterwards never block it and are never waited for; the fence always finishes once the earlier readers leave, for any number of repeated fences.",
 ["schedules","histories"],"all interleavings of readers and fences within the bounds; one-step induction over all counter values",
 "No test exercises the fence with a reader inside it.",
 [I+"detail/gentex.hpp"],[("start/finish/lock_gen/unlock_gen",I+"detail/gentex.hpp")])
p("C22","The context flushes every open database and shutdown never hangs",
 "Every open database attached to a context is flushed on each round, which is due at least once per second, by exactly one thread at a time, closing a database waits for a flush in progress and then removes it exactly once, and stopping the context makes all its threads exit; none of these deadlocks, loses a database or touches one after it is closed.",
 ["schedules"],"all interleavings of worker threads, opens, closes, flushes and stops within the bounds",
 "The context test relies on wall-clock sleeps, and one schedule per run.",
 [I+"impl/context.ipp",I+"context.hpp"],[("run/flush_one/erase/stop_all",I+"impl/context.ipp"),("intrusive list",I+"impl/context.ipp")])
p("C23","Concurrent use as documented is free of data races",
 "Calls documented as safe to run concurrently (fetch, insert, flush, accessors) never access the same memory from two threads without synchronisation when at least one access is a write.",
 ["schedules"],"all interleavings at lock and file-operation granularity within the bounds, every memory access checked by happens-before",
 "The tests run without a race detector and with one client thread.",
 [I+"impl/basic_store.ipp",I+"impl/context.ipp",I+"detail/gentex.hpp"],[("locking discipline",I+"impl/basic_store.ipp")])
p("C24","The default hash equals XXH64 for every input, seed and alignment",
 "The default hasher returns the standard XXH64 digest of the bytes and seed, independent of the alignment of the input, so that existing databases keep their bucket placement and fingerprint.",
 ["inputs"],"all byte strings up to the bounded length, all seeds, all alignments",
 "Nothing compares the hasher with the standard; a consistent change passes every test.",
 [I+"detail/xxhash.hpp",I+"xxhasher.hpp"],[("XXH64_endian_align",I+"detail/xxhash.hpp")])
p("C25","Close commits everything, removes the log, and the database can be reopened",
 "A successful close has durably committed every successful insert and removed the log file; a close after an error reports that error, closes the database, and keeps the log so that the next open can recover. The same object can then be opened again.",
 ["histories","fault_sequences"],"all small histories of insert, flush, close and open, with and without failures",
 "Tests close once at the end of a run.",
 [I+"impl/basic_store.ipp"],[("basic_store::close",I+"impl/basic_store.ipp")])
p("C26","Buffered items are stored exactly and never overlap in memory",
 "Items buffered between commits keep their exact key and value bytes whatever the number, order and sizes of inserts, including after pools are exchanged, cleared and reused; memory handed out for one item never overlaps another item's.",
 ["inputs","histories"],"all sequences of insert sizes and pool exchanges within the bounds",
 "Covered only through large random runs with one size distribution.",
 [I+"detail/pool.hpp",I+"detail/arena.hpp",I+"detail/cache.hpp"],[("arena::alloc/clear/swap",I+"detail/arena.hpp"),("pool insert/find/swap",I+"detail/pool.hpp")])
p("C27","Damaged files produce errors, never memory corruption",
 "Opening, recovering, fetching from, verifying or visiting files with arbitrary contents never reads or writes outside the program's buffers; the operation finishes with success or an error.",
 ["inputs"],"arbitrary contents of log, bucket and spill bytes within the bounds",
 "No test supplies damaged files.",
 [I+"detail/bucket.hpp",I+"impl/recover.ipp",I+"impl/verify.ipp",I+"impl/visit.ipp"],[("size checks when reading buckets",I+"detail/bucket.hpp"),("istream bounds",I+"detail/stream.hpp")])
p("C28","Insert is delayed only when a burst is buffered faster than it can be flushed",
 "An insert is held back, once and briefly, only if more than the configured burst of work (value bytes plus three blocks per item) is buffered and work arrives faster than the last commit of more than a burst wrote it; a burst buffered clearly faster is held back. Otherwise insert returns without sleeping, whatever the clock shows: standing still or running backwards never faults. Readers are not held back meanwhile.",
 ["inputs","histories"],"all clock readings, all burst sizes and item sizes within the bounds",
 "Throttling depends on real time and is never asserted on.",
 [I+"impl/basic_store.ipp"],[("rate/burst computation in insert and flush",I+"impl/basic_store.ipp")])
p("C29","Error codes have distinct identities, messages and documented conditions",
 "Every library error code is distinct, compares true as an error, carries a message, and maps to exactly its documented condition; a default error_code means success.",
 ["inputs"],"all error enumerators and all integer code values",
 "The test checks a few enumerators.",
 [I+"error.hpp",I+"impl/error.ipp"],[("nudb_category",I+"impl/error.ipp")])
p("C30","Progress reports start at zero, never go back and never exceed the total",
 "While verify (either algorithm), visit and rekey run, each call of the progress callback carries the amount of work done so far and the total: the first call reports zero, the amount never decreases and never exceeds the total, and the total stays the same from the first call to the last.",
 ["inputs","configurations"],"all populations, load factors, buffer sizes and block sizes within the bounds",
 "The tests pass a progress object that ignores its arguments or prints them.",
 [I+"impl/verify.ipp",I+"impl/visit.ipp",I+"impl/rekey.ipp","doc/types/Progress.qbk"],[("work accounting",I+"impl/verify.ipp"),("work accounting",I+"impl/rekey.ipp")])
p("C31","Every file handle and every block of memory is released, also after failures",
 "When a store has been closed or destroyed, a failed open has returned, or create, recover, verify, visit or rekey has returned - successfully or with any error at any point - no file it opened is still open and no memory it allocated remains; no file is used after it was closed, or closed twice. The memory a store holds after a commit does not grow with the number of commits.",
 ["inputs","faults","histories","schedules"],"all failing operations, orders of operations and collision patterns within the bounds",
 "The tests do not fail every operation of every function and do not look at what remains.",
 [I+"impl/basic_store.ipp",I+"impl/posix_file.ipp",I+"impl/rekey.ipp",I+"impl/recover.ipp",I+"impl/create.ipp",I+"detail/arena.hpp",I+"detail/pool.hpp",I+"detail/cache.hpp"],[("destructor and close",I+"impl/basic_store.ipp"),("close",I+"impl/posix_file.ipp"),("clear",I+"detail/arena.hpp")])
p("C32","Fetch and insert cost a bounded number of reads; a commit touches each bucket once",
 "A fetch or an insert reads the key's bucket from the key file once, and from the data file one spill record per further link it follows and one data record per entry with the same hash, no more bytes than these have, and changes no file; a key that still waits in memory costs no file operation at all. A commit reads each bucket of the key file at most once and writes it at most once, whatever the number of items and splits that concern it.",
 ["inputs","histories"],"all histories, collision patterns and load factors within the bounds",
 "The tests never count file operations; a store that reads everything twice passes them.",
 [I+"impl/basic_store.ipp",I+"detail/cache.hpp",I+"detail/bucket.hpp","README.md"],[("fetch, exists, insert, commit, load",I+"impl/basic_store.ipp")])
p("C33","Writes do not block reads: a commit at its file operations makes no other thread wait",
 "While a commit is inside any one of its file operations, fetch and insert by other threads complete without waiting for it and with the right results: every item stored, being committed or inserted meanwhile is found, a duplicate is refused, a new key is accepted. What is inserted meanwhile is committed later.",
 ["schedules","histories"],"all file operations of a commit, all collision patterns within the bounds",
 "The tests cannot hold a commit at a chosen file operation and are satisfied if the reader waits.",
 [I+"impl/basic_store.ipp",I+"detail/gentex.hpp","doc/main.qbk"],[("commit, flush, fetch, insert",I+"impl/basic_store.ipp")])
