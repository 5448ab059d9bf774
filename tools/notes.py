_M = 'Seeded sampling, not exhaustive: '
NOTES = {
 'E01': _M + 'real PosixWritableFile on a simulated kernel with short, interrupted, failing and full-disk writes, up to 4 handles on one file; content compared after every call.',
 'E02': _M + 'power failures before/after any system call on an ext4-like disk model (strict POSIX directory durability, fsync error drops dirty pages); plus the worst-case disk examined at every OK Sync.',
 'E03': _M + 'every system call of WriteStringToFile/ReadFileToString may fail, be short or be interrupted.',
 'E04': _M + 'short/interrupted/failing reads, concurrent appender; exact position tracking.',
 'E05': _M + 'limits 0..3 and default, up to 4 threads and shared handles, replaced files, weak-memory atomics of the limiter; files mapped are never truncated by the workload.',
 'E06': _M + 'one client; one or several failing calls per operation; EINTR from close or fcntl may count as either outcome.',
 'E07': _M + 'descriptor and mapping tables of the simulated process accounted at every acquisition and at the end of every call.',
 'E08': _M + 'several threads and processes; outcomes explained from the log of directory changes; power failure and kill included.',
 'E09': _M + 'up to 3 processes with real POSIX record-lock semantics, kills, failing calls; locks identified by path name.',
 'E10': _M + 'spurious wake-ups, starvation, any notified waiter; order or serialisation of work is not required.',
 'E11': _M + 'thread start, independence of blocked threads, visibility by race detection; failing thread creation is not injected (the build has no exceptions).',
 'E12': _M + 'log file parsed after every phase; process kill (page cache survives), clock jumps; power failure is outside the promise.',
 'E13': _M + 'simulated clock with jumps and interrupted sleeps.',
 'E14': _M + 'overlapping first uses, up to 5 threads and 2 processes.',
 'E15': _M + 'fork+exec is modelled as inspection of the descriptor table for entries without close-on-exec, at any scheduling point.',
 'M01': _M + 'Wing-Gong linearizability search against a reference map; histories of at most some 50 operations.',
 'M02': _M + 'simulated heap with quarantine and live-block table checks every access and the leak at the end.',
 'M03': _M + 'up to several in-memory environments over each other; the disk below must see no event.',
 'W01': _M + 'one history executed directly and wrapped under the same faults and compared; single client.',
 'C01': _M + 'linearizability search per partition against a map that may forget entries.',
 'C02': _M + 'linearizability search per partition against an exact LRU model; assumes the 16 partitions by top hash bits described in DESIGN.md.',
 'C03': _M + 'deleter calls recorded as they happen; simulated heap.',
 'C04': _M + 'two to four threads asking for ids.',
 'S01': _M + 'C++11 weak-memory simulation (stale loads allowed by the model) plus race detection; one writer, up to four readers.',
 'S02': _M + 'as S01, positions compared with a sorted set of must-see and may-see keys; comparators of any magnitude.',
 'A01': _M + 'one allocating thread, concurrent readers of the usage.',
 'D01': _M + 'power failures, cuts and damaged bytes; every decoder access bounds-checked.',
 'T01': _M + 'race, heap and leak monitors over copies, moves and hand-overs.',
 'U01': _M + 'overlap at every instruction; results compared with independent references.',
 'P01': _M + 'the port primitives over simulated std::mutex/std::condition_variable with spurious wake-ups and any notified waiter.',
}
