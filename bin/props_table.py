prop("C01", "A database handle behaves as a map from keys to values",
     "After any sequence of adds (with and without overwrite), removals, clears and lookups on one writer handle, every lookup returns exactly the value last stored under that key, or not-found, and every call reports the result a map would give. The entry count always equals the number of keys stored.",
     ["histories", "configurations"], "all operation histories over arbitrary byte-string keys and values, in file, jemalloc, memory-only and prefix-cache configurations",
     "unit tests insert fixed key families in one or two orders; splits, merges and removals of edges depend on how all stored keys relate, which is quantified over all histories",
     ["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/detail/search_engine.cpp"],
     [("Dict::Add/Remove", "src/dict.cpp"), ("InsertNode/AddLink/RemoveEdge", "src/dict_mem.cpp"), ("SearchEngine::find", "src/detail/search_engine.cpp")],
     note="Random histories against std::map; sampling, not exhaustive. Trusts the reference model and the public API's documented return codes.",
     tech="stateful property-based testing against std::map")
prop("C02", "Size limits are enforced exactly and cleanly",
     "Every key of 1 to 256 bytes and every value of 1 to 32767 bytes is stored and returned intact, and any longer or empty one is refused with an error. A refused call changes nothing.",
     ["inputs", "histories"], "all key and value lengths, with emphasis on the boundaries, after any history",
     "tests use short keys and a handful of value sizes; the limits interact with buffer size classes and inline edge storage",
     ["src/db.cpp", "src/dict.cpp", "src/drm_base.h", "src/free_list.cpp", "src/mb_data.cpp"],
     [("argument checks of DB::Add/Find/Remove", "src/db.cpp"), ("buffer size classes", "src/drm_base.h"), ("free lists by size", "src/free_list.cpp")],
     note="Generated lengths concentrate on boundaries of the limits and of the allocator's size classes.",
     tech="stateful property-based testing against std::map with boundary generation")
prop("C03", "Longest-prefix lookup returns the longest stored prefix",
     "A longest-prefix query returns the value of the longest stored key that is a prefix of the query, with its length as match length, and not-found exactly when no stored key is a prefix. This holds for every query and every set of stored keys, also after removals.",
     ["inputs", "histories"], "all queries against all stored key sets reachable by histories",
     "tests query fixed key sets whose prefixes sit at predictable nodes; the answer depends on edge boundaries inside the query",
     ["src/db.cpp", "src/detail/search_engine.cpp", "src/util/prefix_cache.cpp"],
     [("FindLongestPrefix", "src/db.cpp"), ("SearchEngine::findPrefix", "src/detail/search_engine.cpp")],
     note="Random key sets and one-edit-away queries; oracle scans prefixes in std::map.",
     tech="stateful property-based testing against a map-scan oracle")
prop("C04", "Lower-bound lookup returns the greatest stored key not above the query",
     "A lower-bound query returns the entry with the greatest stored key that is less than or equal to the query in byte order, together with that key when asked for, and not-found exactly when no such key exists. This holds on writer and reader handles, and with fresh and reused result objects.",
     ["inputs", "histories"], "all queries against all stored key sets reachable by histories",
     "tests use numeric keys of one shape; bytes above 127, keys that are prefixes of the query and bounds in other sub-trees need arbitrary key sets",
     ["src/db.cpp", "src/detail/search_engine.cpp"],
     [("FindLowerBound", "src/db.cpp"), ("SearchEngine::lowerBound", "src/detail/search_engine.cpp")],
     note="Random key sets and one-edit-away queries; oracle is std::map::upper_bound.",
     tech="stateful property-based testing against std::map::upper_bound")
prop("C05", "Iteration yields every stored entry exactly once",
     "Iterating over a database yields every stored key with its value exactly once and nothing else, and a prefix iteration yields every stored key that starts with the prefix exactly once and nothing unrelated. This holds after any history and on writer and reader handles.",
     ["inputs", "histories"], "all histories and all prefixes",
     "tests iterate over bulk-loaded key families; node shapes after removals, empty-suffix entries and prefixes ending inside an edge need arbitrary sets",
     ["src/iterator.cpp", "src/dict.cpp", "src/dict_mem.cpp"],
     [("DB::iterator", "src/iterator.cpp"), ("ReadNextEdge/ReadNode", "src/dict.cpp")],
     note="Keys that are proper prefixes of the given prefix may also be yielded by a prefix iteration (documented in the code); order is not asserted.",
     tech="stateful property-based testing against std::map")
prop("C06", "Stored entries survive closing, reopening and process exit",
     "Whatever was stored when a writer session ends, by closing or by process exit without closing, is exactly what every later writer or reader finds, under any memory cap, sync option or bucket setting chosen on reopening.",
     ["histories", "configurations"], "all session histories and all re-open configurations",
     "tests reopen once with the settings they created the database with; mapping windows and stale header state depend on the sequence of configurations",
     ["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/rollable_file.cpp", "src/mmap_file.cpp", "src/drm_base.h"],
     [("DB open/close", "src/db.cpp"), ("sliding-window mapping", "src/rollable_file.cpp"), ("header", "src/drm_base.h")],
     note="Sessions run in forked processes from a clean base; loss of power (unsynced pages) is not modelled.",
     tech="stateful property-based testing across process sessions against std::map")
prop("C07", "A reader sees every completed change of the writer at once",
     "As soon as a writer call returns, every open reader handle, in the same or in another process, finds exactly the resulting contents. This holds for readers opened before or after the change, across collection, clearing and growth of the files.",
     ["histories", "configurations"], "all interleavings of completed writer calls and reader lookups",
     "tests open readers after the writer is done or read a fixed set; a reader's cached mappings, headers and prefix cache go stale only along particular histories",
     ["src/db.cpp", "src/dict.cpp", "src/rollable_file.cpp", "src/resource_pool.cpp", "src/util/prefix_cache.cpp"],
     [("reader mapping of new blocks", "src/rollable_file.cpp"), ("embedded prefix cache", "src/util/prefix_cache.cpp")],
     note="Completed calls only (no overlap of reader and writer; C08 covers overlap).",
     tech="stateful property-based testing with reader processes against std::map")
prop("C11", "Collecting garbage never changes the contents and reclaims all garbage",
     "Resource collection leaves every entry, the count and iteration unchanged for writer and open readers, and afterwards no byte is pending for reclamation in the collected parts, each of which got shorter by exactly the bytes that were reported as pending. A part whose garbage is below the requested minimum is left alone.",
     ["histories", "configurations"], "all histories before, between and after collections, all thresholds",
     "tests collect once after a bulk load and removal; collection relocates every buffer, and overlap depends on the layout the history left",
     ["src/mb_rc.cpp", "src/db.cpp", "src/mbt_base.cpp", "src/free_list.cpp"],
     [("ReorderBuffers/CollectBuffers", "src/mb_rc.cpp"), ("traversal", "src/mbt_base.cpp")],
     note="Collection without concurrent activity; C27/C28 cover concurrency.",
     tech="stateful property-based testing against std::map")
prop("C13", "A jemalloc database keeps or drops its contents on restart as asked",
     "In jemalloc mode a writer restarted with keep-db finds exactly what was stored when the previous session ended, any number of times, and one restarted without it starts from an empty database. Reader handles agree.",
     ["histories", "configurations"], "all session histories with live data within the documented workspace",
     "tests restart once on a fixed load; the rebuild relocates every buffer and block reuse depends on all earlier restarts",
     ["src/mb_rc.cpp", "src/rollable_file.cpp", "src/db.cpp", "src/dict.cpp"],
     [("startup shrink and evacuation", "src/mb_rc.cpp"), ("arena re-seeding", "src/rollable_file.cpp")],
     note="Live data stays below a third of capacity, as the rebuild needs workspace; a rebuild without room clears the database by design.",
     tech="stateful property-based testing across process sessions against std::map")
prop("C08", "Lookups overlapping writer calls return a result that was right meanwhile",
     "Exact lookups, longest-prefix lookups and existence checks on a reader handle that overlap adds, removals and clears of the writer take no lock and still return a value, or not-found, that was right at some moment between their start and their end. They never return a mixture, a removed entry's reused memory, another key's value or an error.",
     ["schedules", "histories"], "all interleavings, at the granularity of single accesses to shared memory, of writer calls and reader lookups",
     "concurrency tests run threads for a while on one schedule of the machine and mostly check that the key is found; the windows are a few stores wide and need reuse of freed buffers",
     ["src/lock_free.cpp", "src/lock_free.h", "src/detail/search_engine.cpp", "src/detail/lf_guard.h", "src/dict.cpp", "src/dict_mem.cpp", "src/util/prefix_cache.cpp"],
     [("WriterLockFreeStart/Stop and reader validation", "src/lock_free.cpp"), ("lookups", "src/detail/search_engine.cpp"), ("edge switch and release order", "src/dict_mem.cpp")],
     note="Sequentially consistent interleavings of one writer and one reader, switching at generated accesses; no weak-memory effects. Lower-bound lookup and iteration are documented as not concurrent and are excluded. A lookup against a writer frozen in the middle of a call may give up with TRY_AGAIN.",
     tech="property-based testing over generated schedules with a deterministic scheduler; oracle is the set of model states during the call")
prop("C28", "Lookups stay right while garbage is being collected",
     "Exact lookups, longest-prefix lookups and existence checks on a reader handle that overlap a garbage collection by the writer, at whatever step of it and whichever buffers it is moving, return what is stored. They never miss an entry, return memory that has been moved or reused, or report an error.",
     ["schedules", "histories"], "all interleavings, at the granularity of single accesses to shared memory, of collections (and updates between them) and reader lookups",
     "tests look up only after a collection, or from a thread at arbitrary moments; a collection moves every buffer of the database, and each move has a window of a few stores",
     ["src/mb_rc.cpp", "src/mbt_base.cpp", "src/lock_free.cpp", "src/detail/search_engine.cpp", "src/dict.cpp", "src/dict_mem.cpp"],
     [("moving of buffers", "src/mb_rc.cpp"), ("validation of lookups", "src/lock_free.cpp"), ("lookups during a collection", "src/detail/search_engine.cpp")],
     note="Synchronous collections under the deterministic scheduler of C08; collections of an asynchronous writer beside lookups are checked in real time by C27. Sequentially consistent interleavings; a lookup against a writer frozen in the middle of a call may give up with TRY_AGAIN.",
     tech="property-based testing over generated schedules with a deterministic scheduler; oracle is the set of model states during the call")
prop("C29", "Lookups stay right while a jemalloc writer restarts",
     "Lookups on a reader handle that overlap the close of a jemalloc writer, its restart with jemalloc_keep_db, and its calls before and after that, at whatever step, return what is stored: the rebuild of the allocator moves nothing and frees nothing that a running lookup still reads, and updates after the restart are noticed by lookups that began before it.",
     ["schedules", "histories"], "all interleavings, at the granularity of single accesses to shared memory, of restarts, updates and reader lookups",
     "the rebuild tests look up after the restart; a lookup must span the restart and an update of the very edge it is reading",
     ["src/db.cpp", "src/mb_rc.cpp", "src/lock_free.cpp", "src/rollable_file.cpp", "src/dict.cpp"],
     [("rebuild and its reader guard", "src/db.cpp"), ("LockFreeInit", "src/lock_free.cpp"), ("arena of a reopened file", "src/rollable_file.cpp")],
     note="Deterministic scheduler and oracle of C08. The writer waiting for readers hands over to the reader.",
     tech="property-based testing over generated schedules with a deterministic scheduler; oracle is the set of model states during the call")
prop("C09", "A writer killed at any moment leaves a database that recovers",
     "When a writer process dies at any point inside an add, overwrite, removal, clear or collection, the next writer that opens the database finds every other entry unchanged and the interrupted change either wholly applied or not at all, and goes on working. A reader that looks before or during the recovery gets a right answer or is told to try again, and never a wrong value.",
     ["crash points", "histories"], "all histories, all interrupted calls, all points between two stores to shared memory within them, and a second death during recovery",
     "a crash point lies between two particular stores; unit tests set a status word by hand for a few prepared states and never kill a writer inside a call",
     ["src/lock_free.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/mb_rc.cpp", "src/db.cpp"],
     [("logging and recovery of an update", "src/dict.cpp"), ("edge switch", "src/dict_mem.cpp"), ("recovery of a collection", "src/mb_rc.cpp")],
     note="Process death only (stores reach the page cache in program order; loss of power is not modelled). The entry count may be off by one per crash; a clear may be partial; a jemalloc database may come up empty, as documented for unclean state.",
     tech="property-based testing with injected crashes at every store of the interrupted call; oracle is the model before or after the call")
prop("C14", "Every accepted asynchronous update is applied once, in order",
     "With an asynchronous writer, clients in any number of processes queue adds, removals, clears and collections. Every update whose call returned success is applied exactly as a synchronous one would be, the updates of one client in the order of its calls, and nothing refused is applied. When the queue is empty the database holds the resulting contents. A client that stalls or dies inside a call neither blocks the queue nor loses or corrupts another client's update, and updates queued while the writer is closed or killed are applied when it is back.",
     ["schedules", "histories", "faults"], "all interleavings of clients and the writer's thread, stalls and deaths at any access to the queue, restarts and kills of the writer",
     "tests queue updates from one process and wait; lost or reordered updates need two clients inside a few instructions of each other, a full queue, or a death at a particular store",
     ["src/shmq_update.cpp", "src/async_writer.cpp", "src/db.cpp", "src/shm_queue_mgr.cpp", "src/mb_pipe.cpp"],
     [("SHMQ_AcquireSlot/SHMQ_PrepareSlot", "src/shmq_update.cpp"), ("async_writer_thread, AddWithLock", "src/async_writer.cpp")],
     note="Real processes with injected stalls and kills, not an exhaustive scheduler; the writer's one-second waiting time is scaled down 25 times. The final contents are compared through a reader; an update of a client that died inside the call may or may not be applied. Entries added while a collection runs are not recovered when the writer dies before its end (AbnormalExitTest.RC_RECOVERY_RC_ROOT_TREE_test).",
     tech="stateful property-based testing with real client processes, injected stalls and kills; oracle is the set of sequential outcomes per key")
prop("C27", "Collecting garbage in the background loses and revives nothing",
     "While the asynchronous writer collects garbage, updates go on being accepted. Lookups meanwhile find every entry that no pending update concerns, and never return to an older value after a newer one was seen. When the collection is done the contents are exactly those of the same accepted updates without any collection: nothing added, overwritten or removed meanwhile is lost, resurrected or replaced by an older value, whatever else is queued and however often it is repeated or interrupted by closing or killing the writer.",
     ["schedules", "histories", "faults"], "all interleavings of client updates with the steps of a collection, and all closing and kill points in it",
     "the collection test runs on an idle queue; mistakes need an update of a particular key while that key is in the temporary tree, or while the temporary tree is being merged",
     ["src/mb_rc.cpp", "src/async_writer.cpp", "src/dict_mem.cpp", "src/dict.cpp"],
     [("Prepare/Finish/ProcessRCTree", "src/mb_rc.cpp"), ("ProcessTask", "src/async_writer.cpp")],
     note="As C14, with the writer slowed or killed at generated accesses inside collections. Contents are compared when no collection is running; iteration and lower-bound lookups during a background collection are not covered (they do not see the temporary tree).",
     tech="stateful property-based testing with real client processes, injected stalls and kills inside collections; oracle is the set of sequential outcomes per key")
prop("C12", "Collections at a limit evict the least recently updated entries, oldest first",
     "A collection asked to keep the database under an entry count or a size evicts nothing while both are within their limits. Beyond a limit it removes entries in the order of their last update, at the granularity of eviction buckets of num_entry_per_bucket consecutive updates: a bucket goes as a whole and never before an older one, and the current bucket stays. Everything else keeps its value, the entry count stays exact, updates queued meanwhile survive, and repeated collections bring the count under the limit as far as whole buckets allow.",
     ["histories", "configurations"], "all histories, bucket sizes, positions on the 16-bit circle of bucket numbers, and limits",
     "the eviction tests load fresh keys once in order; the order depends on overwrites, on earlier evictions and on where the bucket numbers wrap around",
     ["src/mb_rc.cpp", "src/dict.cpp", "src/db.cpp"],
     [("LRUEviction", "src/mb_rc.cpp"), ("bucket assignment in ReserveData", "src/dict.cpp")],
     note="Up to 140000 buckets in the past are simulated by setting the update counter of the header. A size limit is only checked for the order of the removals, as the size shrinks only by the defragmentation that follows.",
     tech="stateful property-based testing; oracle is the update number of every key")
prop("C15", "At most one writer, and nobody else changes the contents",
     "While a writer handle is open, opening another writer for the same directory, from any process, by any name of the directory, by construction or assignment, or simultaneously with others, fails with WRITER_EXIST and disturbs nothing; of several simultaneous first opens exactly one succeeds. As soon as the writer is closed, destroyed or killed the next open succeeds with the contents intact. Reader handles, refused handles and closed handles never change the contents whatever is called on them, and opening with an invalid configuration fails and leaves an existing database alone.",
     ["histories", "schedules", "configurations"], "all histories of opens, closes, copies, assignments and kills over several processes, and all calls on handles without write access",
     "the lock test opens two writers in one process once; leaks need a particular order of refused, closed and killed handles",
     ["src/db.cpp", "src/util/utils.cpp", "src/resource_pool.cpp"],
     [("PreCheckDB, Close, InitDB, ReInit", "src/db.cpp"), ("acquire_file_lock", "src/util/utils.cpp")],
     note="Real processes, 3 with 3 handles each; simultaneous opens are as simultaneous as the machine makes them. A configuration that differs from the stored one in block or queue size erases the database by design and is not generated.",
     tech="stateful property-based testing over real processes; oracle is the current lock holder and std::map")
prop("C16", "A backup is an independent database with the contents of its source",
     "A successful Backup, by a synchronous writer or queued for an asynchronous one, makes a complete database with exactly the contents of its source at that place in the history: after all updates accepted before it and before those accepted after it. It can be opened, read, changed and collected by writers and readers of its own, and neither database sees later changes of the other. A backup that cannot be made is refused without touching what is there.",
     ["histories", "configurations"], "all histories of updates, collections and backups, and all fill levels of the files",
     "the backup test makes one backup of a fixed load and reads it; mistakes need data at the edge of a block, updates queued around the request, or both databases in use at once",
     ["src/mb_backup.cpp", "src/async_writer.cpp", "src/shm_queue_mgr.cpp", "src/db.cpp"],
     [("DBBackup", "src/mb_backup.cpp"), ("queued backup", "src/async_writer.cpp"), ("one queue per database", "src/shm_queue_mgr.cpp")],
     note="A backup overlapping an update by another handle of the writer's process may be before or after it. Memory-only databases cannot be backed up.",
     tech="stateful property-based testing against std::map, with real writer processes for queued backups")
prop("C26", "Databases do not affect each other",
     "Whatever is done with one database - updating, collecting, clearing its cached resources, erasing, creating again, reinitialising it with another configuration, or killing its processes - changes neither contents nor availability of another, even if they share a process, a queue directory, keys, or parts of their path names. A database that was erased and created again is empty, in every process, and keeps what is stored from then on.",
     ["histories", "configurations"], "all histories over several databases and processes",
     "tests use one database per process and clean up everything in between; leaks need caches keyed by path or inode to be hit by a second database",
     ["src/resource_pool.cpp", "src/shm_queue_mgr.cpp", "src/db.cpp", "src/util/utils.cpp", "src/async_writer.cpp", "src/mmap_file.cpp"],
     [("file cache keyed by path", "src/resource_pool.cpp"), ("queue file named by inode", "src/shm_queue_mgr.cpp"), ("ReInit", "src/db.cpp")],
     note="All databases lie on one file system: the queue's name is the inode of the header. Handles open while their database is erased are not covered.",
     tech="stateful property-based testing over real processes against one std::map per database")
prop("C17", "An unusable database is refused to readers and replaced for a writer",
     "If the header of a database is missing, cut short, zeroed, of another version, or of another configuration, a reader is refused with an error, changes no file, and answers every call with an error. A writer replaces the database by an empty one, in which nothing of the old contents can be found and which behaves like any new database. Nothing crashes or hangs.",
     ["inputs", "histories"], "all contents before the damage, all such damages, repeatedly, in the same or another process",
     "the corrupt-header tests open three fixed kinds of header without anything stored before or after; leftovers matter only in combination with the other files and later updates",
     ["src/db.cpp", "src/drm_base.cpp", "src/dict_mem.cpp", "src/dict.cpp", "src/util/utils.cpp"],
     [("ValidateHeaderFile", "src/drm_base.cpp"), ("ReInit", "src/db.cpp"), ("checks against the header", "src/dict_mem.cpp")],
     note="Damage that leaves version and configuration right (e.g. other fields overwritten, data files damaged) is not detectable by the format and not covered.",
     tech="property-based testing with generated damage; oracle is std::map emptied by the damage")
prop("C10", "The space of removed and overwritten entries is used again",
     "A workload that keeps returning to the same contents reaches a fixed size: however often it is repeated, the index and data files stop growing (free-list mode) and a database whose contents fit never runs out of space (jemalloc mode), because every buffer given up by an overwrite or removal is reused. A collection leaves nothing pending. The contents stay right throughout, for the writer and for readers.",
     ["histories", "configurations"], "all repeated histories, with and without collections, on a new or filled database",
     "a leaked or doubly used buffer shows only over repeated cycles, and only for particular sizes and shapes of the tree",
     ["src/free_list.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/rollable_file.cpp", "src/mb_rc.cpp"],
     [("ReleaseBuffer, ReserveData", "src/dict.cpp"), ("FreeList", "src/free_list.cpp"), ("ReleaseNode", "src/dict_mem.cpp"), ("Free", "src/rollable_file.cpp")],
     note="6-12 repetitions (three times as many in the thorough run). Free lists keep at most 256 buffers per size by design, so the cycles that are compared without collection stay within that.",
     tech="stateful property-based testing; metamorphic relation between repeated cycles, with std::map for the contents")
prop("C19", "A write that does not fit is refused and changes nothing else",
     "When the index or the data file cannot grow any more, Add and Remove return an error, never throw, hang or crash, and leave every entry, the count and iteration as they were; they are refused only if a file has in fact reached its limit, and no file goes past its configured number of blocks. What still fits keeps working, space that is given back can be used again, a collection that finds no room gives up without harm, and closing and reopening a full database loses nothing.",
     ["histories", "configurations", "faults"], "all histories that reach the limits of the index file, the data file or both",
     "no test fills a database up to its limit and goes on using it",
     ["src/dict.cpp", "src/dict_mem.cpp", "src/db.cpp", "src/rollable_file.cpp", "src/mb_rc.cpp"],
     [("Add, ReserveData", "src/dict.cpp"), ("OpenAndMapBlockFile, custom_extent_alloc", "src/rollable_file.cpp"), ("Prepare, Abort, ExceptionRecovery", "src/mb_rc.cpp")],
     note="Databases of 1 to 8 blocks of 4 MB. A full jemalloc database is not reopened: the rebuild needs room and otherwise starts empty by design.",
     tech="stateful property-based testing; oracle is std::map in which refused operations do nothing")
prop("C21", "Handles keep to their memory caps and give back what they take",
     "A handle maps no more of the index and data files into memory than its caps (rounded up to whole blocks), whatever is stored, in writers and in readers whose caps differ, and what lies beyond is served from the files. Opening and closing handles again and again, and making the same calls again and again, does not take more and more mappings, descriptors or memory, and once every handle is closed and ClearResources was called, no mapping and no descriptor of the database is left.",
     ["histories", "configurations"], "all histories, caps (whole blocks, parts of blocks, one byte), block sizes, and repetitions of calls and of opening and closing",
     "a leak or a mapping too many makes no call return a wrong result, and shows only over repetitions or in databases larger than the cap",
     ["src/rollable_file.cpp", "src/resource_pool.cpp", "src/mmap_file.cpp", "src/file_io.cpp", "src/db.cpp", "src/dict.cpp", "src/iterator.cpp", "src/mb_data.cpp"],
     [("OpenAndMapBlockFile", "src/rollable_file.cpp"), ("RemoveResourceByDB", "src/resource_pool.cpp"), ("Close, ClearResources", "src/db.cpp"), ("iterator", "src/iterator.cpp"), ("TransferValueFrom, Resize", "src/mb_data.cpp")],
     note="A prefix cache is mapped apart from the data file, which is not measured then. Memory of jemalloc databases is not measured across closing (their arenas are). Caps of jemalloc databases must be the sizes of their files.",
     tech="stateful property-based testing; oracles are the caps against /proc/self/maps, metamorphic relations between repetitions, and std::map for the contents")

prop("C24", "The mbc shell does what its commands say",
     "A command of the mbc shell, typed, given with -e or in a script, has exactly the effect and prints exactly the entry, hex digits, match length or error that its meaning asks for, for keys and values of any bytes written as quoted strings, bin() and hex() expressions and their concatenations. What the shell prints of a key or value can be read back. Malformed commands are refused, change nothing and never end the shell, which runs the rest of a script and closes the database.",
     ["inputs", "histories"], "all scripts, expressions and malformed commands, in writer and reader mode",
     "there are no tests of the shell; its parser is recursive and meets arbitrary text",
     ["binaries/mbc.cpp", "binaries/expr_parser.cpp", "binaries/hexbin.cpp"],
     [("commands", "binaries/mbc.cpp"), ("expressions", "binaries/expr_parser.cpp"), ("hex", "binaries/hexbin.cpp")],
     note="Quotes within quoted strings are documented as not supported. Text of explanations, show, help and printHeader is free. A reader's updates (through the queue) are covered by C14.",
     tech="property-based testing with a grammar-based generator and mutation; differential against an independent evaluator and std::map, under address and undefined-behaviour sanitizers")
prop("C18", "Calls use exactly the bytes they are given and own what they return",
     "Every call reads exactly the given number of bytes of a key or value, whatever follows them in memory, and keeps no reference to them afterwards. A returned value belongs to the caller: it stays as returned whatever is done to the database or with other results, also after Close, and result objects may be reused, resized, handed over or lent caller memory. Lengths that are zero, negative or too large are refused without reading or writing anything.",
     ["inputs", "histories"], "all keys, values and what follows them in memory, all uses of result objects, over all histories",
     "tests pass zero-terminated literals and look at each result at once; over-reads and shared buffers do not show without sanitizers and hostile surroundings",
     ["src/db.cpp", "src/mb_data.cpp", "src/mb_data.h", "src/dict.cpp", "src/detail/search_engine.cpp"],
     [("argument checks", "src/db.cpp"), ("MBData", "src/mb_data.cpp"), ("edge comparisons", "src/detail/search_engine.cpp")],
     note="Address and undefined-behaviour sanitizers; keys and values in heap blocks of exactly their size or followed by bytes that would extend the match.",
     tech="stateful property-based testing under address and undefined-behaviour sanitizers against std::map")
prop("C20", "Access by data offset is access to the stored value",
     "The data offset a lookup returns identifies the stored value: reading by it returns exactly that value and its bucket, and writing part of a value by it changes exactly those bytes of that value, for the writer, for readers and after reopening, and changes nothing else. Readers cannot write.",
     ["inputs", "histories"], "all parts of all values, after all histories",
     "tests read back one offset of one value; values at block ends, in jemalloc memory or beyond the mapped part need arbitrary histories",
     ["src/db.cpp", "src/dict.cpp", "src/rollable_file.cpp"],
     [("ReadDataByOffset, WriteDataByOffset, GetDataPtrByOffset", "src/db.cpp"), ("ReadData, WriteData", "src/dict.cpp")],
     note="An offset is used before the next update of its key only.",
     tech="stateful property-based testing against std::map")
prop("C30", "Handles can be opened, copied, assigned and closed in any order",
     "Whatever handles of a process are opened, copied, assigned, closed, closed again or destroyed, every open handle keeps showing exactly its database's contents, and every handle that is closed or could not be opened refuses every call without effect or crash. A copy is a reader of the same database, an assigned handle is opened with the other's configuration, and neither depends on memory of the caller or on the other handle. The numbers of writers and readers reported are those of the handles that are open.",
     ["histories", "configurations"], "all orders of opening, copying, assigning, closing and using handles over several databases and kinds of configuration",
     "tests use one or two handles and close them in the order opened; sharing of mappings, files and saved configurations shows only in other orders",
     ["src/db.cpp", "src/dict.cpp", "src/iterator.cpp", "src/resource_pool.cpp", "src/shm_queue_mgr.cpp"],
     [("DB(const DB&), operator=, Close, InitDB", "src/db.cpp"), ("UpdateNumReader, UpdateNumWriter", "src/dict.cpp"), ("ResourcePool", "src/resource_pool.cpp")],
     note="One process and one thread; handles of other processes are covered by C15 and C26. The numbers of handles are not checked for memory-only databases.",
     tech="stateful property-based testing under address and undefined-behaviour sanitizers; oracle is a model of the handles and std::map per database")
prop("C32", "The bindings' interfaces do what the library does",
     "Through the interfaces behind the Go, Python, Perl and Java bindings, adding, removing and looking up keys and values of any bytes has the effects and results of the library: adding never replaces a value, a lookup gives exactly the stored bytes followed by a zero byte, and codes are the library's. Missing handles, directories and databases, and a second writer, are refused without effect. What one of them writes the others and the library read.",
     ["inputs", "histories"], "all histories over keys and values of any bytes, in turn through each interface, with synchronous and asynchronous Java writers",
     "each binding has one demonstration with short texts that is not part of the test suite",
     ["swig/golang/mabain_c_interface.cpp", "swig/python/mabain_c_interface.cpp", "swig/perl/mabain_c_interface.cpp", "swig/java/mabain_interface.cpp"],
     [("mbOpen, mbAdd, mbRemove, mbFind", "swig/golang/mabain_c_interface.cpp"), ("mb_open, mb_add, mb_find", "swig/python/mabain_c_interface.cpp"), ("Mabain", "swig/java/mabain_interface.cpp")],
     note="The C++ side is compiled as it is; the code SWIG generates and the other languages' runtimes are not run.",
     tech="stateful property-based testing under address and undefined-behaviour sanitizers against std::map; differential between the interfaces and the library")
prop("C25", "What the operating system refuses is reported and loses nothing",
     "When the system refuses file space (also a full disk), a mapping, an open file or the writing of a backup, at whatever call and within whatever operation, the call reports an error or succeeds, and never crashes, throws or leaves the database unusable. A refused update changes nothing, nothing stored is lost, a lookup never answers not-found because of it, a collection or backup that failed is refused as a whole, and everything works again as soon as the system does, for this handle, for handles opened later and after reopening. A writer that cannot be opened leaves the database as it is and does not keep others out.",
     ["faults", "histories"], "all points of failure of the calls for file space, mapping, opening and backup writing, single and repeated, over all histories and configurations",
     "tests run on a system that never refuses; which of the hundreds of system calls of a history fails decides what is half done",
     ["src/file_io.cpp", "src/mmap_file.cpp", "src/resource_pool.cpp", "src/rollable_file.cpp", "src/db.cpp", "src/mb_backup.cpp"],
     [("AllocateFile, Open, MapFile", "src/file_io.cpp"), ("OpenFileWithKey", "src/resource_pool.cpp"), ("OpenAndMapBlockFile, CheckAndOpenFile", "src/rollable_file.cpp"), ("InitDB, Close", "src/db.cpp"), ("Backup", "src/mb_backup.cpp")],
     note="Failures are injected by the linker at fallocate, posix_fallocate, ftruncate, mmap, open and fwrite. Not injected: failing writes to space that is already allocated. A jemalloc restart with keep_db runs without failures, because a rebuild that fails starts an empty database by design.",
     tech="stateful property-based testing with generated fault injection against std::map")

prop("C22", "Threads with handles of their own do not disturb each other",
     "When the threads of a process each use handles of their own, to databases of their own or as readers of a database they share, and open, use, collect, back up and close them at the same time, nothing they share within the library is accessed without synchronization, and every call gives what it would give if the thread were alone.",
     ["schedules", "histories", "configurations"], "all schedules of two to four threads that each run a generated history with reopening, readers, collections, backups and all kinds of configuration",
     "tests of threads open their handles one after the other and run fixed loops; what is shared behind the handles (files, mappings, arenas, counts, the log) is raced for only at certain moments",
     ["src/resource_pool.cpp", "src/rollable_file.cpp", "src/dict.cpp", "src/db.cpp", "src/logger.cpp"],
     [("ResourcePool", "src/resource_pool.cpp"), ("arena_manager_map, custom_extent_alloc", "src/rollable_file.cpp"), ("UpdateNumReader", "src/dict.cpp")],
     note="Schedules are those of the machine; the thread sanitizer sees unsynchronized accesses also when they do no harm in the run at hand. The writer's and readers' lock-free accesses to one database are C08's; handles shared by threads are not promised.",
     tech="stateful property-based testing with real threads under the thread sanitizer against std::map")
prop("C23", "A database works the same wherever it lies and whatever is logged",
     "A database, its readers and its backups work the same in directories of any length and with any bytes in their names, written absolutely or relatively, with or without closing or doubled slashes, and with any level of logging to the standard streams or a file. A log file that reaches its size is kept under the next number, with the nine latest, and only one is open. A directory that does not exist is refused for writers and readers.",
     ["inputs", "configurations", "histories"], "all directories up to 3600 characters, all ways to write them, all levels and targets of logging, over all histories",
     "tests use one short directory and the default level; buffers for paths and formats of messages fail for others",
     ["src/db.cpp", "src/logger.cpp", "src/resource_pool.cpp", "src/mb_backup.cpp", "src/rollable_file.cpp"],
     [("Log, Rotate, InitLogFile", "src/logger.cpp"), ("InitDB", "src/db.cpp"), ("Backup", "src/mb_backup.cpp")],
     note="Texts of the log are free. With a relative directory the current directory is not changed while handles are open.",
     tech="stateful property-based testing under address and undefined-behaviour sanitizers against std::map")
