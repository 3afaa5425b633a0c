#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


H, T, S = "tkrzw_dbm_hash.cc", "tkrzw_dbm_tree.cc", "tkrzw_dbm_skip.cc"
TH = "tkrzw_thread_util.h"

p("S01", "HashDBM behaves as a map for every operation sequence and tuning",
  "For every sequence of HashDBM operations, each operation's status, returned value and count is what a plain key-value map would give, and the complete content is the same after closing and opening the file. "
  "This holds in both update modes and for every record CRC mode, compression mode, offset width, alignment, bucket count, free-block capacity and file class, for empty, binary, colliding and width-boundary keys and values. "
  "The database's own validation finds no inconsistency at any such point.",
  ["histories", "configurations", "inputs"], "all operation sequences, all tuning parameters, all key and value sizes",
  "The tests run a few fixed or random sequences under a few tunings; free-block reuse, chain surgery and width boundaries depend on the exact order and sizes.",
  [H, "tkrzw_dbm_hash_impl.cc", "tkrzw_dbm.h"],
  [("chain walk and record placement", H + ": ProcessImpl"), ("record encoding", "tkrzw_dbm_hash_impl.cc: HashRecord"), ("free block pool", "tkrzw_dbm_hash_impl.cc: FreeBlockPool")],
  [("hash chain", "bucket to record list", H)], ["DBM API", "ValidateRecords", "ValidateHashBuckets"])
p("S02", "TreeDBM behaves as an ordered map for every operation sequence and shape",
  "For every sequence of TreeDBM operations, each operation's status, returned value and count is what an ordered map under the configured key comparator would give, whatever page splits, merges, root changes and cache evictions the sequence causes. "
  "Forward and backward iteration, and jumps to or around any key, give exactly the records of that map in order. "
  "The content and the iteration order are the same after synchronizing, closing and opening the file.",
  ["histories", "configurations", "inputs"], "all operation sequences over small key sets, page sizes, branch numbers, cache sizes, comparators",
  "The tests use large random loads with default-like pages; the shape transitions for particular insertion and removal orders are not enumerated.",
  [T, "tkrzw_dbm_tree_impl.cc"],
  [("leaf and inner division", T + ": DivideNodes, AddChildIdToInnerNode"), ("merge", T + ": ReorganizeTree, JoinPrev/NextLeafNode"), ("metadata", T + ": LoadMetadata/SaveMetadata")],
  [("tree", "leaves linked both ways, inner nodes", T)], ["DBM API", "iterators"])
p("S03", "SkipDBM shows the last synchronized records, sorted and reduced",
  "For every sequence of SkipDBM operations, after a synchronization the database is the list of records, sorted by key, that the updates so far give: records of the same key stay in the order of their addition, a removal drops the earlier ones, and a reducer, if given, is applied to each key's values; and Get, iteration, jumps and GetByIndex all agree with it. "
  "Updates become visible after synchronization and not before, and other statuses and counts follow the documentation. "
  "The content is the same after closing and opening, for every tuning, with and without external merge sorting, whatever the reducers are.",
  ["histories", "configurations", "inputs"], "all operation sequences with synchronizations in every position, tunings, reducers, merge inputs",
  "The tests synchronize once after loading; few of them mix insertion, removal, merge and reopening in different orders or exceed the sort memory.",
  [S, "tkrzw_dbm_skip_impl.cc"],
  [("record sorter", "tkrzw_dbm_skip_impl.cc: RecordSorter"), ("finishing", S + ": FinishStorage"), ("search", "tkrzw_dbm_skip_impl.cc: SkipRecord::Search")],
  [("storage file and sorter", "sorted records and pending updates", S)], ["DBM API", "iterators"])
p("S04", "On-memory databases behave as maps, and the cache keeps its limits",
  "For every sequence of operations on TinyDBM, BabyDBM, StdHashDBM and StdTreeDBM, each operation's status, returned value and count is what a map (ordered for BabyDBM and StdTreeDBM) would give, and the content survives synchronizing, closing and opening the snapshot file. "
  "CacheDBM is the same map as long as its capacity is not exceeded, evicts the least recently used records when it is, never exceeds its record capacity by more than the rounding to its internal slots, and never returns a stale or foreign value. When the capacity is reduced, the least recently used records go first.",
  ["histories", "configurations", "inputs"], "all operation sequences, bucket counts, comparators, capacities",
  "Tests check selected sequences; node splits of the B+ tree, bucket chains and the order of evictions depend on the sequence.",
  ["tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc"],
  [("tiny record chains", "tkrzw_dbm_tiny.cc"), ("baby tree", "tkrzw_dbm_baby.cc"), ("cache slots", "tkrzw_dbm_cache.cc: CacheSlot")], (), ["DBM API"])
p("S05", "Iterators stay correct when records change around them",
  "For every interleaving, in one thread, of iterator moves, jumps, reads and edits with direct updates of the database, an iterator of an ordered database is always at the record of its position key or at the next remaining record in order, and its edits act on that record only. "
  "A full pass over any database without updates visits each record exactly once and then reports that there is no record; iterators never crash, hang or return a record that is not in the database.",
  ["histories", "configurations"], "all sequences of iterator operations and updates up to a depth, all database classes",
  "Tests move iterators over stable content and try a handful of removals during iteration.",
  [H, T, S, "tkrzw_dbm_baby.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_cache.cc"],
  [("tree iterator", T + ": TreeDBMIteratorImpl"), ("iterator registry", "Close/Clear/Rebuild reset every live iterator")], (), ["DBM::Iterator"])
p("S06", "Rebuilding, copying, exporting, importing and restoring keep the content",
  "Rebuild (with the same or other tuning), CopyFileData, Export to another database, ExportToFlatRecords and back, TSV export and import, and the restoration or import of a cleanly closed file give exactly the records of the source, with the order preserved where there is one, and leave the source unchanged. "
  "This holds for every content, every history that led to it and every pair of tunings, and updates made after such an operation work as before.",
  ["histories", "configurations", "inputs"], "all small contents and histories, pairs of tunings, database classes",
  "Tests rebuild a few sizeable databases; garbage, removed records, changed widths and binary bytes are combined only by chance.",
  [H, T, S, "tkrzw_dbm_common_impl.cc", "tkrzw_dbm.cc"],
  [("rebuild", H + ": RebuildImpl"), ("flat records and TSV", "tkrzw_dbm_common_impl.cc"), ("import", H + ": ImportFromFileForward/Backward")], (), ["DBM API", "files"])
p("S07", "Facade classes and the C binding forward every operation faithfully",
  "Through PolyDBM, ShardDBM with any number of shards, and the C language interface, every operation sequence gives the statuses, values, counts and ordered iteration that the underlying database gives directly. "
  "A sharded database assigns each key to exactly one shard, permanently, and its iteration, counting, searching and multi-record operations cover all the shards; its iterators give key order for ordered classes.",
  ["histories", "configurations"], "all operation sequences up to a depth, every database class behind the facade, shard counts",
  "The tests of the facades exercise each method a few times with one argument pattern and shard count.",
  ["tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc", "tkrzw_langc.cc", "tkrzw_dbm_async.cc"],
  [("delegation", "tkrzw_dbm_poly.cc"), ("shard choice and iterator merge", "tkrzw_dbm_shard.cc"), ("C wrappers", "tkrzw_langc.cc")], (), ["PolyDBM", "ShardDBM", "C API"])
p("S08", "Secondary indexes keep a sorted set of key-value pairs",
  "For every sequence of additions and removals, an index of any class contains exactly the key-value pairs added and not removed, GetValues and Check agree with that set, and iteration and jumps give the pairs in the order of key and then value. "
  "A file index keeps its pairs across synchronizing, rebuilding, closing and opening.",
  ["histories", "inputs"], "all sequences of operations over a small set of pairs including prefixes and empty strings",
  "The tests check a fixed set of pairs.",
  ["tkrzw_index.h"], [("pair serialization and comparators", "tkrzw_index.h, tkrzw_key_comparators.h PairLexicalKeyComparator")], (), ["index classes"])
p("S09", "Every file class behaves as a growable byte array",
  "For every sequence of reads, writes, appends, expansions, truncations, synchronizations and reopenings, each file class returns the bytes, sizes and offsets of a plain growable byte array, refuses reads beyond the end, and leaves a file of exactly that content after closing. "
  "This holds for every allocation setting, access strategy and head buffer size, and for ranges that straddle their boundaries.",
  ["histories", "configurations", "inputs"], "all operation sequences over boundary offsets, file classes, allocation and access settings",
  "The common file tests use a few fixed offsets and default settings.",
  ["tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_file_std.cc", "tkrzw_file_poly.cc", "tkrzw_sys_file_mmap_std.h", "tkrzw_sys_file_pos_std.h"],
  [("memory map growth", "tkrzw_sys_file_mmap_std.h"), ("aligned positional access and head buffer", "tkrzw_sys_file_pos_std.h")], (), ["File API"])
p("S10", "Codecs and compressors round-trip and comparators are total orders",
  "Every compressor restores exactly what it compressed and reports failure instead of returning wrong data for damaged input it can detect; every serialization and text codec of the library decodes what it encoded and never reads or writes out of bounds, whatever the input. "
  "Every key comparator is a consistent total preorder in agreement with its documented meaning, and the hash functions give the same value for the same bytes however the input is chunked.",
  ["inputs"], "all strings up to a length over a small alphabet, all boundary numbers, all cut points",
  "The tests use a handful of examples for each function.",
  ["tkrzw_compress.cc", "tkrzw_sys_compress_aes.h", "tkrzw_str_util.cc", "tkrzw_str_util.h", "tkrzw_hash_util.cc", "tkrzw_key_comparators.h", "tkrzw_lib_common.h"],
  [("codecs", "tkrzw_str_util.cc, tkrzw_compress.cc"), ("comparators", "tkrzw_key_comparators.h")], (), ["functions"])
p("S11", "A message queue delivers every message once, in order, with its timestamp",
  "For every sequence of writes, synchronizations, file switches, removals of old files, closings and openings, each reader gets exactly the messages whose timestamp is not below its minimum, in writing order, each once, with the timestamps made non-decreasing as documented, across file boundaries. "
  "Data files never exceed the size at which a new one must be started, and removing old files removes only those that hold no message newer than the given time.",
  ["histories", "configurations", "inputs"], "all operation sequences up to a depth, maximum file sizes, message sizes, start timestamps",
  "The tests write a fixed number of messages and read them from a few starting points.",
  ["tkrzw_message_queue.cc"],
  [("file rotation", "tkrzw_message_queue.cc: MessageQueueImpl::Write"), ("reader", "tkrzw_message_queue.cc: ReaderImpl")], (), ["MessageQueue", "Reader", "files"])
p("S12", "Replaying the update log reproduces the database",
  "For every sequence of updates on a database with an update logger, applying the logged operations in order to a database that had the initial content gives exactly the final content, for every logger class, every database class and every updating operation. "
  "Operations that change nothing need not be logged, and operations that fail leave no effect in the log.",
  ["histories", "configurations"], "all operation sequences up to a depth over every updating operation, database and logger class",
  "The tests compare the log of a few chosen operations.",
  ["tkrzw_dbm_ulog.cc", H, T, "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", S],
  [("log calls", "WriteSet/WriteRemove/WriteClear in each database"), ("replay", "tkrzw_dbm_ulog.cc: ApplyUpdateLog")], (), ["UpdateLogger", "DBMUpdateLoggerMQ"])
p("S13", "Closed and read-only databases refuse updates and are never modified",
  "On a file database (HashDBM, TreeDBM, SkipDBM, and PolyDBM or ShardDBM over them) that is not opened, because it never was, was closed, or failed to open, every operation reports a precondition error, calls no processor and writes no file, iterators never succeed, and the database can be opened again and used. "
  "Opening an opened database of any class is refused and changes neither the database nor a file. On a file database opened as read-only, every updating or file-managing operation, through the database or an iterator, is refused with a precondition error and has no effect, and every reading operation answers as a writable session would. "
  "A read-only session of any class, also of the on-memory classes (whose records live in memory and may change there without a writable file), leaves the files byte for byte as they were.",
  ["histories", "configurations"], "every operation in every lifecycle state, every database class",
  "The tests check the precondition of few methods and never compare the file bytes.",
  [H, T, S, "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_poly.cc", "tkrzw_dbm_shard.cc"],
  [("state checks", "open_/writable_/healthy_ tests at the head of each method")], (), ["DBM API", "file bytes"])

p("C01", "Lock classes exclude, share, upgrade, downgrade and never deadlock",
  "Every mutex and shared mutex class of the library, the slotted and the hashed record mutexes, and the scoped lock helpers give mutual exclusion between a writer and everybody else, allow concurrent readers, and make what was done under the lock visible to its next holder. "
  "Trying, upgrading and downgrading keep that exclusion, a failed attempt leaves the lock as it was, and threads that acquire and release properly always finish.",
  ["schedules"], "all interleavings of 2-4 threads up to the preemption bound",
  "The tests run a few threads freely; the windows are a few instructions wide.",
  [TH], [("spin locks", TH + ": SpinMutex, SpinSharedMutex, SpinWPSharedMutex"), ("record locks", TH + ": SlottedMutex, HashMutex, ScopedHashLock*")],
  [("lock words", "holders", TH)], ["lock API"])
p("C02", "Waiters are always woken and queued tasks run exactly once",
  "A thread that waits on a wait counter, a signal broker or a keyed signal broker returns when its condition is met, whatever the interleaving, with no lost wakeup and no success without a signal meant for it, and with failure only by timeout. "
  "A task queue runs each added task exactly once in the order of addition, and Stop returns with all the threads ended.",
  ["schedules"], "all interleavings of 2-4 threads up to the preemption bound",
  "Lost wakeups need a particular order of notify and wait that free-running tests never meet.",
  [TH], [("WaitCounter, TaskQueue", TH), ("SignalBroker, SlottedKeySignalBroker", TH)], (), ["API"])
p("C03", "Concurrent single-record operations of HashDBM are linearizable",
  "For all interleavings of concurrent HashDBM operations (set, get, remove, append, increment, compare-exchange, count, clear), each operation's result is what some sequential order consistent with real time would give, and the final content agrees with it, in both update modes. "
  "There is no data race, deadlock, crash or torn value, and the database stays structurally valid.",
  ["schedules", "histories", "configurations"], "all interleavings of 2-3 threads with 1-3 operations on colliding keys up to the preemption bound, file classes, update modes",
  "Free-running threads hit the relevant windows rarely and the tests only compare final totals.",
  [H, TH, "tkrzw_file_mmap.cc"], [("record locking", H + " + HashMutex"), ("atomic counters", H)], (), ["operation results", "happens-before analysis"])
p("C04", "Concurrent operations of TreeDBM are linearizable",
  "For all interleavings of concurrent TreeDBM operations that split, merge, load and evict pages, each operation's result is what some sequential order consistent with real time would give, and the final content, its order and its reopened state agree with it. "
  "There is no data race, deadlock, crash or lost update.",
  ["schedules", "histories", "configurations"], "all interleavings of 2-3 threads with 1-3 operations over a small tree up to the preemption bound, cache sizes",
  "Page reorganization in the middle of another operation needs an exact schedule.",
  [T], [("page latches and mutex_", T), ("page cache", T + ": leaf and inner slots")], (), ["operation results", "happens-before analysis"])
p("C05", "Concurrent operations of the on-memory and skip databases are linearizable",
  "For all interleavings of concurrent operations on TinyDBM, BabyDBM, CacheDBM, StdHashDBM, StdTreeDBM and SkipDBM, each operation's result is what some sequential order consistent with real time would give, and the final content agrees with it (CacheDBM counts its slots one after another, so its Count is not covered). "
  "There is no data race, deadlock or crash.",
  ["schedules", "histories", "configurations"], "all interleavings of 2-3 threads with 1-3 operations up to the preemption bound",
  "Free-running tests compare only final totals.",
  ["tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", S],
  [("slotted locks, latches", "each class")], (), ["operation results", "happens-before analysis"])
p("C06", "Multi-record operations are atomic for every other thread",
  "ProcessMulti, CompareExchangeMulti, Rekey and the other documented atomic operations on several records take effect for every concurrent reader and writer as one indivisible step, on every database class that supports them, and never deadlock with each other whatever the keys and their order. "
  "No other thread that accesses the records sees or overwrites an intermediate state (the number of records returned by Count is not covered, and ShardDBM isolates ProcessMulti from other ProcessMulti calls only).",
  ["schedules", "histories"], "all interleavings of 2-3 threads with overlapping key sets in every order up to the preemption bound",
  "Tests check the final sum of transfers on a free run.",
  [H, T, "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_shard.cc"],
  [("ScopedHashLockMulti", TH), ("ProcessMulti", "each class")], (), ["operation results"])
p("C07", "Rebuild, synchronize and clear lose nothing of concurrent updates",
  "While one thread rebuilds, synchronizes, clears or copies a database, all concurrent operations of other threads are linearizable with it: no acknowledged update is lost, no removed record comes back, and every read returns a current value. "
  "There is no data race, deadlock or crash, and the file opened afterwards has exactly the final content.",
  ["schedules", "histories"], "all interleavings of a rebuild, synchronization or clear with 1-2 updating threads up to the preemption bound",
  "The catch-up phase of a rebuild is a few steps long and needs an update in its window.",
  [H, T, S], [("rebuild with catch-up", H + ": RebuildImpl"), ("exclusive synchronize", H + ", " + T)], (), ["operation results", "reopened content"])
p("C08", "Iteration under concurrent updates returns only real records and ends",
  "An iterator or ProcessEach running concurrently with updates, clearing or closing of the database returns only records that existed at some moment during the iteration, visits every record that no one touches exactly once, and ends. "
  "(Going backward, a record after a removed one may be met again, and an iterator of StdHashDBM or StdTreeDBM whose record is removed by others stands at the next record, so that Next passes over that one. Clearing, rebuilding and closing end the iteration early.) "
  "There is no data race, use of freed memory, deadlock or crash.",
  ["schedules", "histories"], "all interleavings of an iterating thread with 1-2 updating threads up to the preemption bound, every database class",
  "Page splits or removals must strike exactly between two iterator steps.",
  [H, T, S, "tkrzw_dbm_baby.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc"],
  [("iterators", "each class")], (), ["visited records", "happens-before analysis"])
p("C09", "Asynchronous operations complete once with the synchronous result",
  "Every operation submitted to the asynchronous adapter is executed exactly once, its future becomes ready with the status and data the synchronous operation would give, and waiting for it never hangs, for any number of worker threads. "
  "When the adapter is destroyed all submitted operations have been executed, and the operations are linearizable between submission and completion.",
  ["schedules", "histories"], "all interleavings of a submitting thread with 1-2 workers up to the preemption bound",
  "Tests wait for futures in the lucky order.",
  ["tkrzw_dbm_async.cc", TH], [("task queue and promises", "tkrzw_dbm_async.cc")], (), ["futures", "content"])
p("C10", "Concurrent writers and readers of a message queue lose nothing",
  "With concurrent writers, readers and synchronization, every message is delivered to every reader exactly once, in one common order consistent with each writer's own order, and a waiting reader is woken by a new message or by the closing of the queue. "
  "There is no data race, deadlock, torn message or endless wait.",
  ["schedules", "histories"], "all interleavings of 1-2 writers and 1-2 readers up to the preemption bound, file switches included",
  "Tests run free with long queues.",
  ["tkrzw_message_queue.cc"], [("mutex and condition", "tkrzw_message_queue.cc")], (), ["messages read"])
p("C11", "Parallel file access keeps ranges intact and appends disjoint",
  "Concurrent reads, writes, appends and expansions on the parallel file classes keep every byte of disjoint ranges, give disjoint ranges to appends and expansions, and never return bytes that nobody wrote, while the file grows around them. "
  "The atomic classes and the stream class make each operation, also synchronizing, truncating and asking the size, indivisible; there is no data race, deadlock or crash in any.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with 1-3 operations up to the preemption bound, file classes",
  "Remapping while another thread accesses the mapping needs an exact schedule.",
  ["tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_file_std.cc", "tkrzw_sys_file_mmap_std.h", "tkrzw_sys_file_pos_std.h"],
  [("size allocation and remapping", "file classes")], (), ["bytes", "happens-before analysis"])
p("C12", "The update log orders concurrent updates as the database did",
  "For all interleavings of concurrent updates with an update logger, applying the log in its order to the initial content gives the database's final content, for every database class. "
  "Multi-record operations, appends, increments and clearing are included.",
  ["schedules", "histories"], "all interleavings of 2-3 threads with 1-2 updates on common keys up to the preemption bound",
  "The order of the log against the order of effects is never compared under contention.",
  [H, T, "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_ulog.cc"],
  [("logging inside the record lock", "each class")], (), ["log", "content"])

p("D01", "HashDBM recovers an uncleanly closed file to a consistent state",
  "If the process stops at any point of a HashDBM session, opening the file again under any restore mode gives a consistent usable database: in appending mode with default restoration the records are the effect of a prefix of the updates that includes every one completed before the stop, with sync restoration they are exactly those of the last successful synchronization, and in in-place mode with default restoration no record is lost or altered, whether or not it was synchronized, except that the record being updated at the stop is in the state before or after that update (a torn write may cost that one record). "
  "The same holds if the process stops during a rebuild or during the restoration itself, and later updates work.",
  ["crash_points", "histories", "configurations"], "every prefix of the sequence of file effects of small histories (including torn stores), restore modes, tunings",
  "Tests simulate a crash at a few points by copying the file.",
  [H, "tkrzw_dbm_hash_impl.cc"], [("restore", H + ": OpenImpl, RestoreDatabase, ImportFromFile*"), ("closure flags", H + ": SaveMetadata")], (), ["reopened content"])
p("D02", "Data synchronized with the hard option survives a power failure",
  "When Synchronize with the hard option, Rebuild with hard synchronization, or Close of a database opened with the hard-sync option has succeeded, then whatever subset of later unsynchronized page writes, size changes and renames reaches the disk before a power failure, opening the file again gives at least the state of that synchronization: for HashDBM in appending mode and TreeDBM on it with record CRC each untouched record has its value and each later touched record has that value or a later one (exactly the synchronized state with the sync restoration), for the snapshot-replacing databases and SkipDBM the content is exactly that of the last or of the ongoing synchronization. The promise lasts until a later synchronization or closing without the hard option begins. A rename that replaces a file never exposes a file whose content was not synchronized. (A 4096-byte page is assumed to be written atomically and a directory to be saved with the next file synchronization; Clear and StdFile are excluded.)",
  ["crash_points", "histories"], "every crash point and every reordering (within a bound) of unsynchronized page, size and rename effects of small histories",
  "No test can lose unsynchronized pages.",
  [H, "tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", S, "tkrzw_dbm_common_impl.cc"], [("msync/fsync order", "file classes Synchronize"), ("metadata", H + ": SaveMetadata")], (), ["reopened content"])
p("D03", "TreeDBM recovers an uncleanly closed file to a consistent ordered map",
  "If the process stops at any point of a TreeDBM session, opening the file again gives a consistent ordered map: every record synchronized and not updated afterwards is present and every record returned was once written, with sync restoration of a database in appending mode the content is exactly that of the last synchronization, and iteration and later updates work. (Exempt: a page overwritten in place that was torn, and sync restoration in in-place mode, which drops moved pages.) "
  "The same holds if the process stops during a rebuild or during the restoration.",
  ["crash_points", "histories", "configurations"], "every prefix of the file effects of small histories with page splits and merges, restore modes, page update modes",
  "Tests simulate a crash at a few points.",
  [T, H], [("restore", T + ": RestoreDatabase"), ("page saving order", T)], (), ["reopened content"])
p("D04", "Snapshot files are replaced atomically",
  "If the process stops at any point while a SkipDBM, TinyDBM, BabyDBM, CacheDBM or standard-container database synchronizes, rebuilds or closes, the next opening gives either the complete previous snapshot or the complete new one, never a mixture, a truncation or an error. "
  "Left-over temporary files do no harm.",
  ["crash_points", "histories"], "every prefix of the file effects of small histories of synchronizations",
  "No test stops inside the replacement.",
  [S, "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc", "tkrzw_dbm_common_impl.cc"],
  [("temporary file and rename", "Synchronize/Close/Rebuild of each class")], (), ["reopened content"])
p("D05", "A message queue recovers every complete message after a stop",
  "If the process stops at any point while messages are written, the queue can be opened again, readers get exactly the messages completely written before that point, in order, followed by those written afterwards, and a damaged or partial message is never delivered. "
  "Read-only openings of such files give a prefix of them that includes every synchronized one.",
  ["crash_points", "histories"], "every prefix of the file effects of small histories, including torn records and file switches",
  "No test opens a queue with a torn tail.",
  ["tkrzw_message_queue.cc"], [("recovery at opening", "tkrzw_message_queue.cc")], (), ["messages read"])
p("E01", "Failed input and output is reported and never damages older data",
  "When any single system call on a file fails in the middle of any operation of a hash database or of an on-memory database saved to a file, that operation reports an error instead of success; short transfers and interrupted calls are continued and do no harm; no thread hangs and nothing crashes, even if every later call fails too. "
  "After closing and opening again the records that the failed operation did not touch are intact, the records it touched have an old or a new value, the structure is consistent (a file whose update failed half way is not taken for properly closed but restored), and the database is usable.",
  ["fault_sequences", "histories"], "failure of every single system call of small histories, on HashDBM and the on-memory databases and three file classes",
  "Tests never inject failures.",
  [H, "tkrzw_file_mmap.cc", "tkrzw_file_pos.cc", "tkrzw_dbm_tiny.cc", "tkrzw_dbm_baby.cc", "tkrzw_dbm_cache.cc", "tkrzw_dbm_std.cc"], [("status propagation", "everywhere")], (), ["statuses", "reopened content"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
