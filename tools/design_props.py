"""Per property: what is asserted, against which oracle, and where the checks stop."""
D={
'C01':("""After a history of inserts, flushes (explicit `flush()`), close and reopen, every key is fetched: the callback must run once with the
inserted size and bytes, absent keys must give `key_not_found` without a callback. The hash of every key is a free value, so
every placement into buckets, every collision and every split order within the bounds is one of the explored cases.""",
 "the harness's own list of inserted items (`store.h`)","bulk histories use fixed key order; h_history has every order of operations with few keys"),
'C02':("""Every history job re-inserts each key at the end and in between: `key_exists` for stored keys, success for new ones, and the
original value afterwards. `h_insert_insert` lets two threads race with equal keys: exactly one winner.""","the list of inserted items",""),
'C03':("""The process stops before the n-th file operation (n symbolic); what was not synced survives or not, torn at any byte; then a new object
opens the files, with the recovery it implies. The surviving items must be exactly those of the last completed commit, or
those plus all of the commit in progress; and the files must satisfy the C07 oracle afterwards.""","item lists before and after the commit; independent format reader",
 "splits, spills, two commits and huge files each have a job; positions are limited by `every` in some thorough jobs"),
'C04':("""As C03, but recovery itself is stopped at a symbolic point (crash or I/O failure), any number of times in sequence up to the bound, and repeated; the final
files must be those of the uninterrupted recovery.""","the file image after an uninterrupted recovery from the same state",""),
'C05':("""One operation (or all from one on) fails, a failing write may have transferred part; the caller must get an error, a failed commit must stick
to `insert`, `fetch`, `close`; no fetch may deliver wrong bytes; after the fault is gone, everything committed before is there.""","item lists; fault bookkeeping of the file model",""),
'C06':("""The data file bytes of each completed commit are kept by the harness and compared after every later operation, after crash and recovery, after
rekey and verify.""","earlier image of the data file",""),
'C07':("""`check_format` in `store.h`, written from the format documentation, parses the files after commits: header fields, every data record, every bucket in order,
spill chains, the bucket linear hashing assigns, capacity, sorted hashes, each item exactly once. No NuDB code is used by it.""","independent parser",
 "huge files: the hole is skipped, everything stored is parsed"),
'C08':("""Encoding and decoding of every integer field for every value; header fields of created files, and the bytes of the log, compared with hand-written big-endian layouts.""",
 "byte layouts written down in the harness",""),
'C09':("""Both headers with free field values: `open` must succeed exactly when the documented conditions hold, report the stored parameters, and change no byte when it refuses.""","the conditions written out in `files.cpp`",""),
'C10':("""`bucket_index` and `ceil_pow2` for all arguments (one query each), the number of buckets after many small and large commits for all load factors from a
table, and the placement in C07's oracle up to 2^32 buckets.""","arithmetic definition; growth rule counted in integers","growth is judged with a slack of one split"),
'C11':("""One inductive step: a bucket with arbitrary valid contents, one operation with arbitrary arguments, full comparison; and whole-database jobs with hashes that
differ in the lowest bit only.""","array model of a bucket",""),
'C12':("""`bulk_reader`/`bulk_writer` with symbolic buffer size, request sizes, file length, failing operation; and visit/rekey over data files whose
records straddle buffers.""","byte arrays",""),
'C13':("""`posix_file` against system calls that return anything POSIX allows (short, EINTR, end, error), whole databases under benign faults must behave as without them.""","script of results; unfaulted run",""),
'C14':("""Logs with free headers, logs of other databases, logs cut at any length, logs of commit and rekey: refused logs change nothing, accepted ones restore exactly
the logged buckets and sizes.""","image of the files when the log was begun",""),
'C15':("""After a history, rekey with another block size, load factor, buffer size and item count; then every item is fetched, duplicates are refused, the format oracle and verify
must pass, and the data file up to its old end is unchanged.""","item list; independent parser",""),
'C16':("""Rekey stopped or failing at a symbolic operation, then recovery, then rekey again. The data file must be its old image, the key file must be
absent or refused; when rekey had reported success, the new key file must be complete.""","data file image",""),
'C17':("""Verify of produced databases must succeed, with the exact counts, in both algorithms (the slow one with small buffers too); of damaged ones (one free entry field, record
header field, or header field) it must fail exactly when the damage breaks the association.""","counts computed from the item list; single-field damage with a free value",
 "see the known finding on duplicate keys"),
'C18':("""Arbitrary sequences of records, cut anywhere, with a callback that stops anywhere: callback sequence and result code.""","the records written by the harness",""),
'C19':("""Free arguments, any pre-existing files, any failing operation, crash right after success.""","conditions written out in the harness",""),
'C20':("""Two or three threads and a commit; each fetch and insert must have the result some sequential order allows; deadlock is "no thread can run".""","completed-before relation kept by the harness",""),
'C21':("""`gentex` and `genlock` by themselves: one-step induction over all counter values, and all schedules of readers and fences in the bound; plus the store with a reader across a commit.""","set of readers inside",""),
'C22':("""`context` with test stores: flushes never overlap for one store, never happen after close, rounds reach all stores, `stop_all` ends all threads; every schedule in the bound.""","counters in the test stores",
 "stop_all before a user thread enters run(): documented hazard, excluded"),
'C23':("""Every job of C20 and the context jobs again with vector clocks on: two accesses to one byte, one a write, unordered by happens-before, is a violation.""","happens-before",
 "the harness's own accesses are exempt"),
'C24':("""`xxhasher` on every byte string up to the length bound, at every alignment, with a free seed, compared with an independent XXH64.""","independent XXH64",
 "lengths above the bound; the loop body is covered from 32 bytes on"),
'C25':("""Close after histories, with and without faults: items durable (the machine stops right after), log gone or kept, object reusable.""","item list, file model",""),
'C26':("""Two arenas, pools and caches with every sequence of operations in the bound: no live allocation is handed out twice or changed; contents exact, in whatever order they are iterated; and fetches
while pools are exchanged.""","model of live items",""),
'C27':("""Arbitrary bytes in log, buckets, spill chains and data file; every load and store the code makes is checked by the engine; loops must end.""","memory safety itself",
 "`BOOST_ASSERT` disabled as in release builds"),
'C28':("""Clock readings, burst sizes and inserts in any order in the bound; sleeping exactly when the documented condition holds.""","rate formula evaluated by the harness with a band left free around the threshold",""),
'C29':("""Every enumerator and every integer code, all pairs.""","documented tables",""),
'C30':("""Verify, visit and rekey on all small populations with a progress object that checks each report against the one before.""","the wording of the Progress concept",""),
'C31':("""A store's session and each tool with a failing operation anywhere; afterwards the file model's open descriptors must be none and the engine's count of live heap
blocks must be what it was before (natively: malloc hooks of AddressSanitizer). Repeated equal commits must not raise that count.""","number of open descriptors and live heap blocks before",
 "exceptions from allocations or callbacks are outside"),
'C32':("""Histories of inserts, commits and fetches with the file model's operations counted: for each fetch and insert the bound is computed from the files
themselves (chain and equal hashes of that bucket), for each commit one read and one write per bucket.""","cost computed from the files by the harness's own reader",
 "operations of the file system below the File concept are not counted"),
'C33':("""At a free position among the file operations of a commit the harness runs fetches and inserts to completion inside that operation, as another thread would.
A lock that the commit holds there would never be granted: the engine reports it as a hang.""","the model map of items",
 "waiting for a reader that fetched before the commit began (C20 and C21) is not covered here"),
}
