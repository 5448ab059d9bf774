#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
POSIX='util/env_posix.cc'; ENVH='include/lsmdb/env.h'; MEM='helpers/memenv/memenv.cc'; CACHE='util/cache.cc'; SKIP='db/skiplist.h'

p('E01','A writable file holds exactly the bytes it accepted, in order',
  'As long as no operation on a writable file has reported an error, once its Flush, Sync or Close returns OK the file contains exactly the earlier content (for an appendable file; nothing for a new file) followed by every appended byte, once each and in append order, for any mix of append sizes. This holds however the operating system splits or interrupts the individual writes. Before that point the file never contains bytes that are not a prefix of that sequence. When a file is open for appending through several handles at once, the bytes of each handle land after whatever is there, in that handle\'s order, and none overwrites or loses those of another.',
  ['inputs','histories','fault_sequences'],
  'all sequences of create/append/flush/sync/close over any append sizes (below, at and above the internal buffering boundaries), any pattern of short and interrupted writes by the OS, several files at once',
  'No test opens a file through the default Env at all; the in-memory Env tests use a handful of fixed sizes and never see a short or interrupted write.',
  [POSIX,ENVH],[('write buffering and the retry loop of the writable file',POSIX)],
  [('pos_','bytes buffered and not yet handed to the OS',POSIX)],
  ['WritableFile::Append/Flush/Sync/Close return values','file content in the simulated file system'])
p('E02','Data acknowledged by Sync survives a power failure',
  'When Sync returns OK and no earlier operation on that file failed, every byte appended before it survives a power failure at any later instant. For a manifest file (base name starting with MANIFEST) an OK Sync also makes durable every earlier creation, rename and removal in the manifest\'s directory, and a manifest record written by append-then-Sync is never visible after a crash unless the files created in that directory before that Sync are visible too. A file replaced by synced-write-then-rename shows, after any crash, the complete old or the complete new content.',
  ['crash_points','histories','fault_sequences'],
  'every crash point between and inside operations, every choice of which unsynced pages and directory updates the disk kept, and failing or interrupted writes and syncs on the way',
  'Tests run without crashes on a kernel that never loses its page cache; nothing observes whether fsync/fdatasync was issued, on what, or in which order.',
  [POSIX,'util/env.cc',ENVH],[('file data sync',POSIX),('directory sync before a manifest is flushed',POSIX),('write-string-to-file with sync','util/env.cc')],
  [('is_manifest_','file whose sync must also persist its directory',POSIX)],
  ['content of the simulated disk after a simulated power failure'])
p('E03','Whole-file write and read are all-or-error',
  'Writing a string to a file returns OK only if the file then contains exactly that string; if it returns an error after having opened the file, no file is left under that name unless removing it failed too, and if the file could not be opened, what was there before is left as it was. Reading a file to a string returns OK only with the file\'s complete content and otherwise an error, never silently truncated or padded content. Neither leaks a file object or descriptor on any path.',
  ['inputs','fault_sequences'],
  'all contents and sizes, every position at which open, write, sync, close, read or unlink fails, is interrupted or transfers only part of the data',
  'Tests only ever write and read short strings successfully against the in-memory Env.',
  ['util/env.cc',POSIX,MEM],[('error path that closes and removes the partial file','util/env.cc'),('read loop until an empty fragment','util/env.cc')],
  (),['returned Status','simulated file system content and descriptor table'])
p('E04','Sequential reads return the file in order despite short reads',
  'The fragments returned by successive successful Reads on a sequential file, together with the bytes passed over by Skip, are consecutive pieces of the file content starting at offset 0; no byte is repeated, dropped or invented, and Read returns at most the requested number of bytes and writes nowhere outside the caller\'s scratch buffer. An empty successful Read happens only at the end of the file. Skipping past the end stops at the end and returns OK, so bytes appended afterwards are still read.',
  ['inputs','histories','fault_sequences'],
  'all interleavings of reads and skips of any size with concurrent appends, and every pattern of short, interrupted and failing reads',
  'The in-memory Env test does one fixed sequence; no test drives the default Env or any short or interrupted read.',
  [POSIX,MEM,ENVH],[('EINTR retry in sequential read',POSIX),('skip',POSIX)],(),['Read results against the simulated file'])
p('E05','Random-access reads return the right bytes from any thread',
  'A successful random-access Read of n bytes at an offset returns at most n bytes, equal to the file content at that offset, and only bytes inside the file, whichever internal access method (mapped, kept-open descriptor, reopen per read) serves it; when nothing fails, a read entirely inside the file returns all n bytes (or the 2 GiB one system call transfers at most). This holds for any number of threads reading the same and different files while other files are opened and closed. Any existing readable file, including an empty one, can be opened this way when no resource or I/O error occurs.',
  ['inputs','schedules','fault_sequences','configurations'],
  'all offsets and lengths including beyond the end and near 2^64, all thread interleavings, all settings of the mapping and descriptor limits, short and failing reads, opens and mappings',
  'No test constructs a random-access file on the default Env; concurrency and limit exhaustion are never exercised.',
  [POSIX,ENVH],[('choice of access method by remaining budget',POSIX),('bounds check of the mapped file',POSIX)],
  [('acquires_allowed_','remaining budget of mappings / descriptors',POSIX)],['Read results against the simulated file'])
p('E06','Every I/O failure is reported, classified and named',
  'When the operating system refuses a file operation for good, the Env or file operation that needed it returns a non-OK status: NotFound exactly when the cause is a missing file or directory and IOError otherwise, with a message naming the path concerned. Failed open and lock operations leave the result pointer null, and every operation with no failing system call and valid arguments returns OK. Interrupted reads and writes are retried rather than reported.',
  ['fault_sequences','inputs'],
  'every operation of the default Env, each system call it makes failing at any occurrence with any errno',
  'Tests contain no failing system call; they check only success, plus missing files on the in-memory Env.',
  [POSIX,'util/env.cc','util/status.cc','include/lsmdb/status.h'],[('errno to Status mapping',POSIX)],(),['returned Status and out-pointers'])
p('E07','Descriptors and mappings stay bounded and never leak',
  'Open random-access files never hold more kept-open descriptors or memory mappings than the configured limits (by default 1000 mappings and a fifth of the descriptors the process may have), at any moment, and closing one makes its slot usable again, so that any number of files can be open at once. Every descriptor or mapping an operation acquired is released exactly once, on success, on failure and when the owning object is destroyed; none is released twice or used after release. After all objects are gone the process holds nothing, whatever failed on the way, and no call has left memory behind.',
  ['schedules','fault_sequences','histories','configurations'],
  'all interleavings of opens, reads and closes by several threads, all limit settings, all failing opens, stats, mappings, reads and closes',
  'No test observes descriptor tables or limits, and a leaked slot only shows after many operations or a failure.',
  [POSIX],[('counting limiter',POSIX),('close on every error path',POSIX)],
  [('acquires_allowed_','remaining budget',POSIX)],['descriptor and mapping tables of the simulated kernel'])
p('E08','Directory operations act atomically on exactly the named path',
  'File existence, size, listing, removal, rename, directory creation and removal behave like the corresponding operations on a simple tree of named files: each affects only the named entries, whoever may read them; existence, size, reading and listing follow symbolic links while removal and rename act on the link itself; and a listing that returns OK names every entry present throughout the call and none absent throughout it. Renaming onto an existing name replaces it atomically: concurrent observers, and the disk after a crash, see the old or the new file under the target and never none. Opening for write truncates only the named file, opening for append never does.',
  ['histories','schedules','crash_points','fault_sequences'],
  'all operation histories from several threads and processes, every crash point, failing system calls',
  'No test touches the default Env\'s namespace operations; the in-memory tests are a single fixed sequence.',
  [POSIX,ENVH],[('one system call per namespace change',POSIX)],(),['simulated directory tree','concurrent FileExists/open results'])
p('E09','A locked file has one holder across threads and processes',
  'At any time at most one caller, over all threads and processes, holds the lock on a given path. A lock attempt returns at once without waiting, fails with a null lock when another holds it, and never disturbs the holder\'s lock; after an unlock or the death of the holding process the lock can be acquired again. An attempt fails only if the lock is held or being acquired or released by someone else, or the operating system reported an error.',
  ['schedules','histories','crash_points','fault_sequences'],
  'all interleavings of lock and unlock from several threads in several processes, process kills and restarts at any instant, failing open/lock/close calls',
  'The only lock test calls the in-memory Env\'s no-op lock once; process-level exclusion and its interaction with closing descriptors need several processes and precise schedules.',
  [POSIX,ENVH],[('in-process table of locked names',POSIX),('fcntl record lock',POSIX)],
  [('locked_files_','names locked by this process',POSIX)],['results of LockFile/UnlockFile','kernel lock table of the simulator'])
p('E10','Scheduled work runs exactly once, in the background',
  'Every function handed to Schedule is run exactly once with its own argument, on a thread other than the scheduling one, and sees everything its scheduler wrote before scheduling it. Schedule itself never waits for work to run, may be called from any thread including from inside scheduled work, and no wake-up is lost: whenever all running work has finished, all scheduled work has run. Later scheduled work never postpones earlier work forever.',
  ['schedules','histories'],
  'all interleavings of several scheduling threads and the background thread, work that schedules more work, spurious wake-ups, delayed and stalled threads',
  'No test calls Schedule.',
  [POSIX,MEM,ENVH],[('queue guarded by a mutex and condition variable, one lazily started worker',POSIX)],
  [('background_work_queue_','scheduled and not yet started work',POSIX),('started_background_thread_','whether the worker exists',POSIX)],['execution record of work functions'])
p('E11','Started threads run once, concurrently and independently',
  'Each StartThread call runs its function exactly once with its argument in a new thread and returns without waiting for it. A started thread that blocks does not keep other started threads, scheduled work or its starter from making progress. The function sees everything its starter wrote before the call.',
  ['schedules','histories'],
  'all interleavings of several starting threads, started threads that block on each other, and scheduled work',
  'No test calls StartThread.',
  [POSIX,MEM,ENVH],[('detached thread per call',POSIX)],(),['execution record of thread functions'])
p('E12','Each log call leaves one complete line in the log file',
  'Every log call adds exactly one contiguous record to its log file: the local time taken from the clock during the call, a thread identifier that differs between threads, then the complete formatted message of any length, ending in exactly one added newline if the message lacks one. Records from concurrent threads are never interleaved or lost, and a record is in the file when the call returns, so a process crash later does not lose it. Reopening an existing log keeps its earlier content, and no log call leaves memory allocated.',
  ['schedules','inputs','crash_points','configurations'],
  'all message lengths around and beyond the internal buffer sizes, several threads logging at once, clock jumps, short writes, process kill at any instant',
  'No test creates a logger.',
  ['util/posix_logger.h',POSIX,'util/env.cc'],[('two-pass formatting into stack then heap buffer','util/posix_logger.h'),('single write and flush per record','util/posix_logger.h')],(),['content of the simulated log file'])
p('E13','Clock readings and sleeps follow the system clock',
  'The microsecond clock returns the operating system\'s current time during the call with full microsecond resolution, so differences of readings equal elapsed time. Sleeping for a number of microseconds returns no earlier than that much time later, even if the sleep is interrupted, and blocks no other thread. Neither is disturbed by other threads using them.',
  ['schedules','configurations','fault_sequences'],
  'all clock values including second boundaries and values beyond 32 bits, clock jumps, interrupted sleeps, several threads',
  'No test reads the clock or sleeps.',
  [POSIX,MEM],[('time conversion',POSIX),('sleep',POSIX)],(),['simulated clock'])
p('E14','The default environment is one object, whoever uses it first',
  'All callers of Env::Default() in a process, on any threads and however their first calls overlap, get the same fully constructed environment, and it stays usable for the life of the process. Limits configured before the first use are in force from the first use on, and locks, scheduled work, descriptor and mapping budgets are shared by all users of it. GetTestDirectory returns OK and the same directory every time, the one named by TEST_TMPDIR when that is set, and that directory exists when the call returns, also when several threads or processes ask at the same time.',
  ['schedules','configurations','histories'],
  'all interleavings of the first and later uses by several threads, also from scheduled work and started threads, one or two processes, all limit settings and values of TEST_TMPDIR',
  'Every test obtains the environment on its main thread; a construction race or a second instance shows only when first uses overlap.',
  [POSIX,'util/env_posix_test_helper.h',ENVH],[('lazily constructed static environment',POSIX),('limits configured before the first use',POSIX),('test directory',POSIX)],
  [('env_container','storage of the default environment',POSIX),('g_mmap_limit','configured mapping limit',POSIX)],['returned pointers','limits, locks and work as observed through them'])
p('E15','Programs started by the application inherit no descriptor',
  'A program that any thread of the process starts (fork and exec) at any moment, also while other threads are inside calls of the library, inherits none of the descriptors the library has open: files, locks, logs and directories stay open only as long as the process that uses them keeps them.',
  ['schedules','histories'],
  'all interleavings of the start of a program with calls of all Env and file operations by other threads, on success and failure, with every access method of random-access files',
  'No test starts a program; the moment between opening a descriptor and marking it is too short to hit by chance.',
  [POSIX],[('common flag of all open operations',POSIX)],[('kOpenBaseFlags','flag added to every open',POSIX)],['descriptor table of the simulated process at the start of the program'])
p('M01','The in-memory Env is a linearizable file system',
  'Operations on an in-memory Env from any number of threads (create, append, sequential and random reads, skip, remove, rename, size, existence, listing) take effect atomically at some instant between call and return, as in a map from names to byte-string files. Open files keep referring to the same file when it is renamed or removed; reopening a name for write truncates the file seen by everyone, reopening for append never loses data, and renaming a file onto its own name changes nothing. An append is seen entirely or not at all, and missing files are reported as errors with null results.',
  ['schedules','histories','inputs'],
  'all operation histories over few names by several threads, all append and read sizes around internal block boundaries, all interleavings',
  'The tests are single-threaded fixed sequences; NewAppendableFile is only used on an existing file and rename only onto a fresh name.',
  [MEM,ENVH],[('environment mutex around the name map',MEM),('per-file mutex around the blocks',MEM)],
  [('file_map_','names to files',MEM),('blocks_, size_','content of a file',MEM)],['recorded operation history'])
p('M02','In-memory files live exactly as long as they are reachable',
  'The storage of an in-memory file stays valid while it has a name or an open file object and is freed, once, when the last of these goes, in whatever order and from whatever threads names are removed, replaced or renamed and file objects are destroyed. No operation touches freed storage or storage outside a file\'s own blocks. Deleting the environment after all file objects are gone leaves nothing allocated.',
  ['schedules','histories'],
  'all orders and interleavings of removals, renames, overwrites, truncations and destruction of file objects by several threads',
  'Tests destroy objects in one fixed order on one thread and without a memory checker.',
  [MEM],[('reference counting of files',MEM)],[('refs_','names plus open objects',MEM)],['simulated allocator: live, freed and leaked blocks'])
p('M03','In-memory environments are isolated',
  'Files of an in-memory environment are visible only through it (and wrappers of it): other in-memory environments, whether over the same base environment or over one another, and the base environment hold independent files under the same names, and no file operation on an in-memory environment touches the base environment\'s file system. Creating, using and deleting one in-memory environment has no effect on the files of another, on any threads, and work scheduled through any of them runs.',
  ['schedules','histories'],
  'all interleavings of threads that use, create and delete several in-memory environments with the same names in them and on disk',
  'Tests use one in-memory environment at a time on one thread and never look at the file system below.',
  [MEM],[('file map per environment',MEM),('forwarding of everything but files',MEM)],[('file_map_','files of one environment',MEM)],['contents, sizes and listings per environment','event log of the simulated disk'])
p('W01','A wrapper that overrides nothing is indistinguishable from its target',
  'Calling any Env operation through a forwarding wrapper has exactly the effects and results of calling it on the wrapped Env, including statuses, out-parameters, files created, threads and work started, time and failures. The in-memory Env forwards scheduling, threads, time and sleeping to its base environment in the same way.',
  ['histories','fault_sequences','schedules'],
  'all operation histories under any fault and schedule: the two executions must coincide event for event',
  'Tests call only a few operations through wrappers and never compare with the target.',
  [ENVH,MEM],[('forwarding methods',ENVH)],(),['event traces of the simulator for direct and wrapped runs'])
p('C01','The cache is a linearizable map',
  'Under any concurrent use, cache operations take effect atomically: a lookup returns the value most recently inserted for exactly that key, or nothing if that entry was erased, replaced, evicted, pruned or never inserted; it never returns a replaced or erased value or another key\'s value. A handle obtained from insert or lookup keeps returning its own value until released, whatever happens to the key meanwhile. With capacity zero nothing is retained but returned handles still work.',
  ['schedules','histories','inputs'],
  'all histories of insert, lookup, release, erase and prune by several threads over colliding and non-colliding keys, all interleavings',
  'Cache tests are single-threaded with 4-byte keys.',
  [CACHE,'include/lsmdb/cache.h','util/hash.cc'],[('per-shard mutex',CACHE),('chained hash table with resize',CACHE)],
  [('table_','key to entry',CACHE)],['recorded operation history'])
p('C02','Eviction is least-recently-used and keeps within capacity',
  'After every insert, the charges of entries not pinned by a caller do not push the cache\'s total beyond its capacity (divided evenly, rounded up, among its internal partitions by key): whenever a partition is over its share and holds unpinned entries, entries are evicted. The victim is always the unpinned entry unused for longest, where use means insert, lookup or release of the last handle; pinned entries are never evicted, and nothing is evicted while within capacity. The reported total charge equals the sum of charges of the entries currently retrievable.',
  ['histories','schedules','inputs'],
  'all histories with arbitrary charges (zero, larger than the capacity), capacities, pins and concurrency',
  'One test checks one fixed eviction pattern with unit charges.',
  [CACHE,'include/lsmdb/cache.h'],[('two circular lists, in use and LRU',CACHE),('eviction loop in insert',CACHE)],
  [('usage_','charge currently held',CACHE),('lru_','unpinned entries in use order',CACHE)],['lookups and deleter calls against a reference model','TotalCharge'])
p('C03','Each cached value is deleted exactly once, after its last use',
  'For every inserted entry the deleter passed with it is called exactly once, with that entry\'s key and value, and only after the entry has left the cache and every handle to it has been released; an entry erased, replaced or evicted while pinned is deleted by the last release. By the time the cache is destroyed (with all handles released) every entry has been deleted and no memory is leaked, touched after being freed or freed twice.',
  ['schedules','histories'],
  'all orders and interleavings of insert, lookup, release, erase, prune and destruction by several threads',
  'Tests check fixed single-threaded orders; a double or missing deletion needs racing releases and evictions.',
  [CACHE],[('reference counts and in_cache flag',CACHE)],[('refs','handles plus the cache\'s own reference',CACHE)],['deleter calls','simulated allocator'])
p('C04','Cache ids are never handed out twice',
  'Every call to obtain a new id on one cache returns a value different from all ids returned before or concurrently by any thread.',
  ['schedules','histories'],
  'any number of threads and interleavings',
  'One test takes two ids on one thread.',
  [CACHE],[('id counter under a mutex',CACHE)],[('last_id_','last id handed out',CACHE)],['returned ids'])
p('S01','Skip-list readers see every published key, without locks',
  'While one writer inserts, any number of readers without synchronisation see only fully initialised keys that were inserted, and see every key whose insertion happened before the read began. Membership tests, seeks and scans terminate, and a key once seen by a reader is seen by its later reads. No read races with the writer in the sense of the C++ memory model, on any conforming hardware.',
  ['schedules','histories','inputs'],
  'all insertion orders, node heights, reader operations, interleavings at single-access granularity and stale values the memory model permits',
  'The skip-list test file contains no test.',
  [SKIP,'util/arena.cc','util/random.h'],[('release store / acquire load of next pointers',SKIP)],
  [('max_height_','current height, read racily',SKIP),('next_','links per level',SKIP)],['reader results against inserted sets'])
p('S02','Skip-list iteration is ordered and navigates correctly',
  'At all times a scan yields keys in strictly increasing comparator order without repetition; first, last, next, previous and seek position on exactly the key a sorted set of the inserted keys would give (within what was concurrently inserted), and become invalid exactly when there is none. An iterator stays usable and keeps its key while further keys are inserted.',
  ['inputs','histories','schedules'],
  'all insertion orders and navigation sequences, alone and concurrently with a writer',
  'The skip-list test file contains no test.',
  [SKIP],[('level-wise search',SKIP)],(),['iterator positions against a sorted set'])
p('A01','Arena blocks are disjoint, aligned, stable and accounted for',
  'Every block an arena returns has the requested size, overlaps no other block, keeps its content until the arena is destroyed, and is aligned for pointers and 8-byte values when aligned allocation was asked for. The reported memory usage can be read from other threads during allocation, never decreases and always covers the bytes handed out; destroying the arena frees everything once.',
  ['histories','inputs','schedules'],
  'all sequences of plain and aligned allocations of any sizes around the block boundaries, with concurrent usage readers',
  'One test runs one fixed pseudo-random sequence on one thread, without checking alignment or bounds.',
  ['util/arena.cc','util/arena.h'],[('bump allocation in 4 KiB blocks',"util/arena.cc")],
  [('alloc_ptr_','next free byte','util/arena.h'),('memory_usage_','bytes obtained','util/arena.h')],['returned pointers','MemoryUsage','simulated allocator'])
p('D01','Encoded records read back as an exact prefix after a crash',
  'A sequence of fixed-width integers, variable-length integers and length-prefixed strings written to a file decodes back to exactly the values written; from a file cut at any byte by a crash, decoding yields exactly the records that are complete and then reports failure. Decoding arbitrary damaged bytes reports failure or yields some value, but never reads outside the buffer and always advances or stops. The announced length of a variable-length integer is the length of its encoding.',
  ['crash_points','inputs','fault_sequences'],
  'all record sequences, all crash cuts including inside a length prefix, flipped and zeroed stored bytes',
  'No test covers the coding routines beyond a fixed 4-byte key; none decodes truncated or damaged data.',
  ['util/coding.cc','util/coding.h',POSIX],[('varint and length-prefix decoding with limits','util/coding.cc')],(),['decoded values','simulated allocator bounds checks'])
p('N01','Decimal number formatting and parsing round-trip',
  'Formatting any 64-bit number and parsing it back yields the number; parsing rejects overflow and input without digits, and consumes exactly the digits. Escaping produces only printable characters.',
  ['inputs'],'all numbers and byte strings',
  'Tests sample a few hundred values; but the property is a pure function of its input.',
  ['util/logging.cc'],[('overflow check','util/logging.cc')],(),['return values'])
p('T01','Status values are independent once made, whoever copies them',
  'A status keeps its kind and its complete message (any bytes, any length, one or two parts) for as long as it lives, whatever happens to the buffers it was made from, to the statuses it was copied from, or to its copies. Any number of threads may at the same time read and copy the same status object without synchronisation; copies and moved statuses may be handed to other threads, changed and destroyed there independently of each other. Assigning a status to itself leaves it unchanged, a moved-from status can be assigned and destroyed, and no memory is leaked or released twice.',
  ['schedules','inputs','histories'],
  'all interleavings of threads that make, copy, assign, move, print and destroy statuses, sharing some of them and handing others over, with any messages',
  'Tests move one status on one thread; a shared or counted message buffer shows only when copies die on different threads at the right moments.',
  ['util/status.cc','include/lsmdb/status.h'],[('length-prefixed state copy','util/status.cc'),('copy, move and assignment','include/lsmdb/status.h')],
  [('state_','kind, length and message of a non-OK status','include/lsmdb/status.h')],['predicates and ToString','race detector and simulated allocator'])
p('U01','Helper functions can be called from any threads at once',
  'The free helper functions (number formatting and parsing, escaping, hashing, integer and string coding), byte-string comparison and generators owned by different threads keep no state shared between calls: when any threads call them at the same time, each call returns exactly what the same call returns alone, reads only its own input and writes only its own output.',
  ['schedules','inputs'],
  'all interleavings, down to single instructions, of calls by several threads with any arguments',
  'Every test of these functions runs on one thread; a static buffer or lazily built table would pass all of them.',
  ['util/logging.cc','util/logging.h','util/hash.cc','util/coding.cc','util/random.h','include/lsmdb/slice.h'],
  [('number formatting into a local buffer','util/logging.cc'),('hash over the caller\'s bytes','util/hash.cc'),('generator state per object','util/random.h')],
  (),['returned values against independent implementations','race detector'])
p('P01','The portable mutex and condition variable exclude and wake',
  'Between a return of Lock and the following Unlock of a port mutex no other thread is inside such a section of the same mutex, and everything written in earlier sections is visible; a MutexLock holds its mutex from construction to the end of its scope. Wait releases the mutex while waiting and holds it again when it returns. Every Signal lets at least one thread that was already waiting return, and SignalAll lets all of them return, whether called with or without the mutex held, so a thread that re-checks its condition in a loop never waits forever while its condition holds.',
  ['schedules','histories'],
  'all interleavings of threads entering critical sections, waiting for tokens and gates and signalling, with spurious wake-ups, delayed and stalled threads',
  'No test uses the condition variable; a lost wake-up needs a particular interleaving of wait, signal and a second waiter.',
  ['port/port_stdcxx.h','util/mutexlock.h'],[('wait on an adopted unique_lock','port/port_stdcxx.h'),('scoped lock','util/mutexlock.h')],
  [('mu_','the wrapped mutex','port/port_stdcxx.h'),('cv_','the wrapped condition variable','port/port_stdcxx.h')],['recorded owners, tokens and waiters','race detector on the protected data'])
p('N03','The hash function is a fixed function of its input',
  'Hashing the same bytes with the same seed always gives the same 32-bit value on every platform, independent of alignment and of bytes outside the input.',
  ['inputs'],'all byte strings and seeds',
  'Tests check six inputs; but the property is a pure function of its input.',
  ['util/hash.cc'],[('4-byte little-endian mixing','util/hash.cc')],(),['return value'])
p('N04','The command-line tool rejects unknown commands',
  'The tool prints usage and exits non-zero when given no command or an unknown one, and exits zero for the dump command.',
  ['inputs'],'all argument vectors','There is no test of the tool; it has no I/O, concurrency or state yet.',
  ['db/lsmdb_util.cc'],[('argument check','db/lsmdb_util.cc')],(),['exit status'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
