"""What every check builds and runs."""
TRUST_SCHED = [
    "executions are sequentially consistent interleavings at the granularity of synchronisation operations, "
    "file system calls and detected racing accesses; weak-memory reorderings are covered only as data races "
    "and missing release/acquire edges found by the happens-before detector",
    "clang -O1 code generation stands for the product's gcc -O2",
]
TRUST_SEQ = [
    "small-scope: behaviour outside the enumerated alphabet of keys, values, tunings and sequence lengths is not covered",
    "clang -O1 with AddressSanitizer stands for the product's gcc -O2",
]
T_SCHED = "stateless model checking of the real code: preemption-bounded exhaustive schedule enumeration"
T_SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"
N_SCHED = ("Every schedule within the preemption bound of the listed drivers is executed on the real code; trusts the scheduler "
           "runtime, sequential consistency outside of detected races, and the small scope of the drivers.")
N_SEQ = ("Every operation sequence within the stated alphabet and depth is executed on the real code and compared step by step with a "
         "reference model; nothing is claimed outside of that scope.")
T_FAULT = "exhaustive enumeration of the failing system call (every call of every session, five kinds of failure) on the real code"
N_FAULT = ("Every system call of every listed session fails in turn, on the real code; the statuses, the content and the reopened file are compared "
           "with what the operations allow. Stores into mappings cannot fail this way.")
NOT_APPLICABLE = {}


def sched(src, bounds, qt=60, tt=900, **kw):
    d = dict(srcs=[src], flavour="tsan", level="model_checking", technique=T_SCHED, note=N_SCHED, bounds=bounds,
             assumptions=TRUST_SCHED, quick=dict(time=qt), thorough=dict(time=tt))
    d.update(kw)
    return d


def seq(src, bounds, qt=60, tt=1200, **kw):
    d = dict(srcs=[src], flavour="asan", level="model_checking", technique=T_SEQ, note=N_SEQ, bounds=bounds,
             assumptions=TRUST_SEQ, quick=dict(time=qt), thorough=dict(time=tt))
    d.update(kw)
    return d


T_CRASH = "enumeration of every crash point and torn write of recorded sessions of the real code, with the real recovery run on each image"
N_CRASH = ("Every prefix of the file effects of each enumerated session, with the effect in flight torn, is recovered by the real code and "
           "judged; trusts the recorder of file effects and the small scope of the sessions.")
TRUST_CRASH = [
    "a process stop leaves the effects in program order (system calls and stores into shared mappings), the one in flight possibly in part; "
    "sessions are single-threaded",
    "small-scope: histories outside of the enumerated alphabets and lengths are not covered",
]


def crash(src, bounds, qt=35, tt=1200, **kw):
    d = dict(srcs=[src], flavour="tsan", level="model_checking", technique=T_CRASH, note=N_CRASH, bounds=bounds,
             assumptions=TRUST_CRASH, quick=dict(time=qt), thorough=dict(time=tt))
    d.update(kw)
    return d


LOCK_LIBS = ["tkrzw_lib_common.cc", "tkrzw_str_util.cc", "tkrzw_time_util.cc"]
SPECS = {
    "C01": sched("locks.cc", "2-4 threads, 1-2 critical sections each, preemption bound 2 (3 for two threads); thorough 4 (5)", libs=LOCK_LIBS),
    "C02": sched("waiters.cc", "1-3 waiters with 1-2 signalling threads, 0-3 tasks on 1-2 workers, preemption bound 2-3 (1 for three waiters), time-outs and spurious wakeups as choices; thorough one more", libs=LOCK_LIBS),
    "S01": seq("hash_seq.cc", "sequences up to length 2 over 60 operations from two initial contents, length 4-5 over sizes and chains, 15 tunings"),
    "S02": seq("tree_seq.cc", "sequences up to length 2 over 60 operations from two initial contents, up to length 3 from trees of 8 one-record leaves, all insertion orders of up to 7 records, all insertion x removal orders of 4, 9 tunings, 13 comparators"),
    "S03": seq("skip_seq.cc", "sequences up to length 2 over 44 operations from two initial contents, length 4 over duplicates and removals with every reducer, 0-30 records under 8 geometries, in-order insertion up to length 3"),
    "S04": seq("mem_seq.cc", "sequences up to length 2 over 60 operations from two initial contents for 7 configurations (length 1 for 11 more, among them databases not opened), length 4 over size classes, runs of removals and insertions in BabyDBM trees of up to three levels, length 4 over a full CacheDBM slot of 1 to 3 records"),
    "C03": sched("hash_conc.cc", "18 drivers of 2-3 threads with 1-2 operations each, preemption bound 3 (2 for three threads), 8 configurations", qt=30),
    "C04": sched("tree_conc.cc", "16 drivers of 2-3 threads with 1-2 operations each on trees of one-record pages that split and merge, preemption bound 2, 4 configurations; 6 drivers over 200 pages with a cache that evicts", qt=30),
    "C05": sched("mem_conc.cc", "21 drivers of 2-3 threads with 1-2 operations each on 8 configurations of on-memory databases and 9 drivers on 2 of SkipDBM, preemption bound 2", qt=30),
    "C06": sched("multi_conc.cc", "23 drivers of 2-3 threads with 1-2 multi-record or single-record operations on 12 database configurations, preemption bound 2 (1 for the secondary configurations)", qt=35),
    "C07": sched("rebuild_conc.cc", "25 drivers of 2-3 threads around Rebuild, Synchronize, Clear and CopyFileData on 10 database configurations and 13 on 2 of SkipDBM, preemption bound 2 (1 for three threads and secondary configurations)", qt=35),
    "C08": sched("iter_conc.cc", "19 drivers of 1-2 iterating and 0-2 updating threads on 9 database configurations, 9 more on the ordered ones, preemption bound 2 (1 for three threads and secondary configurations)", qt=35),
    "C09": sched("async_conc.cc", "36 operations alone, 280 pairs of them (thorough: all) and 36 triples, submitted to 1-2 workers on two database classes, preemption bound 1-2 (0 for pairs on one worker); thorough one more", qt=30),
    "D01": crash("hash_crash.cc", "sessions of up to 2 operations out of 15 (3 out of 7 for two configurations, thorough: 3 out of 15) on 3 records, 15 combinations of update mode, restore mode, file class and tuning, every effect and torn write, and a second crash in the recovery"),
    "D03": crash("tree_crash.cc", "sessions of up to 2 operations out of 17 (3 out of 7 for four configurations, thorough: 3 out of 17) on 5 records in pages of one or two, 17 combinations of update mode, page update mode, restore mode, comparator, file class and tuning, every effect and torn write, and a second crash in the recovery"),
    "S11": seq("mq_seq.cc", "sequences up to length 2 over 20 operations alone and after a history of 5 in 6 configurations, length 3 in one of them, length 4 over 10 operations in two, of file size and options; thorough one more", qt=35),
    "D05": crash("mq_crash.cc", "sessions of up to 3 operations out of 10 on 5 initial states of the queue and 5 configurations (quick: length 3 for 5 combinations), every effect and torn write, and a second crash in the recovery"),
    "C10": sched("mq_conc.cc", "15 drivers of 2-3 threads that write, read, wait, synchronize, close, cancel and remove files, 3 configurations of file size and synchronization, preemption bound 2-3, time-outs and spurious wakeups as choices; thorough one more", qt=30),
    "C12": sched("ulog_conc.cc", "19 drivers of 2-3 threads with 1-2 updates each on 8 database configurations (7 on SkipDBM), logged to a list, a second database or a message queue, preemption bound 2 (1 for three threads)", qt=35),
    "S12": seq("ulog_seq.cc", "sequences up to length 2 over 56 updating operations from an empty database and three records, length 3 over 20 (over all for the six on-memory ones), on 13 databases of 9 classes and two facades, four logger classes; message codec over boundary sizes, cuts and altered bytes; thorough length 3 over all, 4 over 20", qt=30),
    "D04": crash("snap_crash.cc", "sessions of up to 3 operations out of 8 (2 with left-over temporary files, other file classes and hard synchronization) and long ones on 7 configurations of 6 classes, every effect and torn write, thorough one operation more"),
    "S05": seq("iter_seq.cc", "sequences up to length 2 over 35 iterator and database operations from three contents, position x 2 of 20 operations, position x 3 of 12, and longer alternations on 8 records, each ended by three kinds of walk, on 11 configurations of 8 classes; thorough one more", qt=36),
    "S07": seq("facade_seq.cc", "every operation of 60 alone from two contents and pairs of them for some, on 7 classes behind PolyDBM, ShardDBM with 1-3 shards, the C interface and its asynchronous part; iterator sequences up to length 3 on 20 configurations; 13 search modes after each; 80 sets of textual parameters; thorough all pairs and length 4", qt=36),
    "S09": seq("file_seq.cc", "sequences up to length 2 over 57 operations at block, page and buffer boundaries from three contents and up to length 3 over 21, on 26 configurations of the five file classes and the facade; thorough length 4", qt=30),
    "S08": seq("index_seq.cc", "sequences up to length 2 over 36 updates from three contents and up to length 3 over 15, iterator sequences up to length 3 among updates from four contents, on 13 configurations of the five index classes, and 18 with the other pair comparators; thorough length 4", qt=25),
    "D02": crash("power_crash.cc", "sessions of up to 2 operations out of 6 and 3 out of 4 on 3-4 records, 18 combinations of class, restore mode, file class and hard closing; at every effect every combination (up to 128, beyond that all but up to two) of lost pages, sizes and directory states"),
    "S10": seq("codec_seq.cc", "all strings of up to 3-6 symbols of alphabets with a representative of each class that the code distinguishes, all boundary numbers of each type, all code points below 0x30000, all cuts and changed bytes of encodings of up to 40 bytes, all pairs of 100-1000 keys per comparator"),
    "S13": seq("state_seq.cc", "every operation of 60-75 and every pair of them on databases never opened, closed (with old and new iterators), opened as read-only, after four kinds of failed opening and after 16 kinds of second opening, on 20 configurations of the eight classes and two facades; thorough length 3", qt=30),
    "E01": crash("fault_seq.cc", "every session of 1 operation out of 16 and of 2 or 3 out of 8 on 4 records, and two longer ones, on HashDBM (both update modes, three file classes) and the five on-memory classes, each system call failing in turn in 5 ways (EIO once, ENOSPC from there on, short transfer, EINTR, EIO from there on); thorough 16 x 16 x 8 sessions more", qt=100, technique=T_FAULT, note=N_FAULT),
    "S06": seq("copy_seq.cc", "every transformation (rebuilding to up to 15 tunings, 3 ways of copying, exporting to 11 classes, flat records, TSV and key lists, restoring, importing forward and backward, merging) after every history of up to 1 operation out of 16 (2 out of 9 with fewer exports) on 5 records and two longer ones, on 29 configurations of the eight classes and two facades, open, reopened and read-only, each followed by updates here and there; thorough 2 out of 16 and 3 out of 9", qt=42),
    "C11": sched("file_conc.cc", "30 drivers of 2-3 threads with 1-2 operations each on the five file classes, preemption bound 2 (3 for two threads on the atomic ones); thorough one more", qt=30),
}
