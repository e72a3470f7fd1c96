COORD = [S + "coordination_layer" if False else S + "abstract_system/AbstractCrashAwareSystem_v.rs", S + "abstract_system/AbstractCrashAwareJournal_v.rs",
         S + "abstract_system/AbstractCrashAwareMap_v.rs", S + "abstract_system/AbstractJournal_v.rs", S + "abstract_system/AbstractMap_v.rs",
         S + "abstract_system/MsgHistory_v.rs", S + "abstract_system/StampedMap_v.rs", S + "spec/Messages_t.rs", S + "spec/TotalKMMap_t.rs"]

claim("C01", "Key-value operations are linearizable in the coordinated journal+map design",
      "In the Rust design that couples a journal with a key-value map, every reply to a get or put is what a single map serving one operation at a time between "
      "request and reply would have answered. A get returns the latest value put before it took effect, keys never written read as the default, and each accepted request is "
      "answered at most once and only after it took effect.",
      ["schedules", "inputs", "histories"], "all interleavings of requests, executions, replies, journal/map internal steps and map catch-up, with few keys, values and clients",
      NOTEST, COORD, [("coordination system", S + "abstract_system/AbstractCrashAwareSystem_v.rs"), ("message history", S + "abstract_system/MsgHistory_v.rs")],
      TLC, SMNOTE)

claim("C02", "A crash returns the key-value store to a consistent prefix, never behind a sync",
      "In the Rust design that couples a journal with a key-value map, after a crash at any point the store's contents are those after some prefix of the puts in the order "
      "they took effect. That prefix includes every put executed before a sync request that was answered, and contents recovered stay the same until new puts.",
      ["crash_points", "schedules", "histories"], "a crash between any two steps (with and without an in-flight commit landing), any number of recoveries within the bound",
      NOTEST, COORD, [("commit start/complete and crash", S + "abstract_system/AbstractCrashAwareSystem_v.rs"), ("crash-aware journal", S + "abstract_system/AbstractCrashAwareJournal_v.rs"),
                      ("crash-aware map", S + "abstract_system/AbstractCrashAwareMap_v.rs")],
      TLC, SMNOTE)

claim("C03", "The coordinated journal+map design never wedges: syncs and commits can complete",
      "In the Rust design that couples a journal with a key-value map, from every reachable state a pending request can still be answered, a pending sync can still become "
      "durable and be answered, and a started commit can complete. No sequence of operations, commits and crashes leads to a state where this is impossible.",
      ["schedules", "crash_points", "histories"], "all reachable states within the bounds, with crashes",
      NOTEST, COORD, [("commit start/complete", S + "abstract_system/AbstractCrashAwareSystem_v.rs")],
      "TLA+ progress specification: TLC computes by backward reachability the states of the executed design that can still reach the goal", SMNOTE)

JF = [S + "abstract_system/AbstractJournal_v.rs", S + "abstract_system/MsgHistory_v.rs", S + "journal/PagedJournal_v.rs", S + "journal/LinkedJournal_v.rs",
      S + "allocation_layer/LikesJournal_v.rs", S + "allocation_layer/AllocationJournal_v.rs", S + "disk/GenericDisk_v.rs"]
claim("J01", "Every journal layer stores exactly the appended log between truncation and end",
      "In each layer of the Rust journal (message history, paged, linked pages on disk, pages with reference counts, pages in allocation units) the readable content is exactly the "
      "messages appended, in order, from the truncation point to the end. Marshalling the tail into pages changes nothing, a recovery read or a frozen image is a contiguous slice "
      "of the log, and truncation removes exactly the messages before the given position.",
      ["histories", "inputs"], "all sequences of append, marshal, read, freeze, truncate and allocator steps within small bounds on log length, pages and units, from empty and non-empty images",
      NOTEST, JF, [("append/marshal/crop/discard", S + "journal/LinkedJournal_v.rs"), ("discard and index", S + "allocation_layer/AllocationJournal_v.rs")], TLC, SMNOTE)
claim("J02", "The journal takes only unused space and frees only space no live record needs",
      "The Rust journal over allocation units takes units only when it does not already hold them, and writes new records only into free pages of units it holds. It gives back a unit "
      "only when no record at or after the truncation point lies in it, and every unit it holds but no longer needs is given back when the log is truncated.",
      ["histories", "inputs"], "all sequences of unit fill, prune, marshal and truncate steps within small bounds",
      NOTEST, JF + [S + "allocation_layer/MiniAllocator_v.rs"], [("fill/prune/discard", S + "allocation_layer/AllocationJournal_v.rs"), ("mini allocator", S + "allocation_layer/MiniAllocator_v.rs")], TLC, SMNOTE)
claim("J03", "The crash-aware journals recover an intact log with everything reported durable",
      "In the Rust journals that keep a durable, an in-flight and an in-memory copy (as message histories, as separate page images, and as images sharing one disk) every copy is at all "
      "times readable as a contiguous piece of the log. After a crash at any point the in-memory copy is again the durable one, or the in-flight one if it landed, and positions once "
      "reported durable are never lost; truncation and reuse of space never touch pages that the durable or the in-flight copy needs.",
      ["crash_points", "histories", "schedules"], "all interleavings of appends, marshalling, commits, space allocation and crashes within small bounds",
      NOTEST, [S + "abstract_system/AbstractCrashAwareJournal_v.rs", S + "allocation_layer/AllocationCrashAwareJournal_v.rs", S + "allocation_layer/UnifiedCrashAwareJournal_v.rs"] + JF,
      [("commit start/complete, crash, load", S + "allocation_layer/UnifiedCrashAwareJournal_v.rs"), ("commit start/complete, crash, load", S + "allocation_layer/AllocationCrashAwareJournal_v.rs")], TLC, SMNOTE)

claim("J04", "The cached journal stores its log durably whatever cache and disk do",
      "In the Rust journal whose pages live in the page cache above the asynchronous disk (JournalCoordinationSystem, CachedJournal) the readable log is exactly the messages appended, in order, from the truncation point, "
      "whatever pages the cache loads, writes back and evicts and whenever the disk answers. An image frozen for a commit is a piece of the log that the disk alone holds from then on until it is truncated, and truncation frees no page that is still to be written; messages can always be appended, read back and made durable.",
      ["histories", "schedules"], "all interleavings of puts, marshalling, reads, freezes, truncation, cache and disk steps within small bounds, from empty and non-empty journals",
      NOTEST, [S + "implementation/" + n for n in ("JournalCoordinationSystem_v.rs", "CachedJournal_v.rs", "JournalModel_v.rs", "Cache_v.rs")] + [S + "spec/AsyncDisk_t.rs", S + "journal/LinkedJournal_v.rs"],
      [("composition", S + "implementation/JournalCoordinationSystem_v.rs"), ("journal", S + "implementation/CachedJournal_v.rs")], TLC, SMNOTE)

MF = [S + "marshalling/" + n for n in ("Marshalling_v.rs", "IntegerMarshalling_v.rs", "SeqMarshalling_v.rs", "UniformSizedSeq_v.rs", "ResizableUniformSizedSeq_v.rs", "VariableSizedElementSeq_v.rs", "KVPairFormat_v.rs")]
MNOTE = ("The marshalling code of the current tree is compiled into a driver and run; every recorded call or step is checked by TLC against the TLA+ formats. Values, buffers and histories are small "
         "(up to 300 bytes), enumerated and pseudo-random; not a proof for all sizes.")
MNT = "Several loops and three functions of this code are not verified by the test suite (assume(false), flaky proofs) and no test executes any of it; the guarantee is over all values, buffers and histories."
MTLA = "TLA+ specification of the formats; each recorded execution of the real code (calls, and closed graphs of update histories) is checked by TLC to be allowed by it"
claim("M01", "Marshalled values read back exactly and parsing never crashes",
      "For every Rust marshalling format (integers, fixed-size, resizable and variable-size sequences, key-value pairs) marshalling a value writes exactly its reported size, changes no other byte of the buffer, "
      "and parsing the written bytes gives back the value. Parsing arbitrary bytes, including corrupt length fields and slices longer than the value, never panics and either yields the value those bytes "
      "encode or reports that they are not parsable.",
      ["inputs"], "all values and byte strings, at any position of a larger buffer", MNT, MF, [("round trip and totality", S + "marshalling/Marshalling_v.rs"), ("parse of a corrupt length", S + "marshalling/ResizableUniformSizedSeq_v.rs")], MTLA, MNOTE)
claim("M02", "In-place sequence updates change exactly the addressed element",
      "In the Rust marshalled sequences, setting an element, appending one and resizing change exactly that element or the length and preserve every other element, including slots beyond the current length, "
      "as well as every byte outside the sequence's area. Set, append and resize are offered exactly when index, length field and remaining space allow, and the updated sequence reads back as expected.",
      ["histories", "inputs"], "all histories of set, append and resize within small capacities, with narrow and wide elements, length fields at their limit, and slices longer than the sequence",
      MNT, MF, [("set/append/resize", S + "marshalling/ResizableUniformSizedSeq_v.rs"), ("append", S + "marshalling/VariableSizedElementSeq_v.rs")], MTLA, MNOTE)
claim("M03", "Sequence formats answer correctly about arbitrary stored bytes",
      "For arbitrary bytes the Rust marshalled sequences report length, which elements can be read and where they lie, whether the area is well formed, and whether set, append or resize is possible, exactly as "
      "the stored length field and offset table imply: little-endian integers, fixed-size slots after the length field, variable-size elements packed backwards from the end. Nothing outside the area is read as an element.",
      ["inputs"], "all byte strings, including corrupt ones", MNT, MF, [("well_formed/try_get", S + "marshalling/VariableSizedElementSeq_v.rs"), ("try_length/try_get", S + "marshalling/ResizableUniformSizedSeq_v.rs")], MTLA, MNOTE)

BF = [S + "betree/" + n for n in ("PagedBetree_v.rs", "PivotBetree_v.rs", "FilteredBetree_v.rs", "Memtable_v.rs", "Buffer_v.rs", "BufferSeq_v.rs", "BufferOffsets_v.rs", "OffsetMap_v.rs", "PivotTable_v.rs", "Domain_v.rs")] + \
     [S + "spec/KeyType_t.rs", S + "spec/Messages_t.rs"]
claim("B01", "Every betree layer is the same map under puts, queries and reorganisation",
      "Each layer of the Rust betree design (paged, with pivot tables, with per-child buffer filters) is the map given by the puts in order: a definition replaces a key's value, an update "
      "changes what the map held. A query answers exactly the map's current value for its key and is always answerable, a frozen image is the whole map at its position, and "
      "flushing the memtable, growing, splitting, flushing and compacting nodes never change the map.",
      ["histories", "inputs"], "all sequences of puts, queries, freezes and reorganisations within small bounds on keys, puts and tree shapes, from empty and from prepared trees",
      NOTEST, BF, [("flush/split/compact", S + "betree/PivotBetree_v.rs"), ("flush/split/compact with filters", S + "betree/FilteredBetree_v.rs"), ("flush/split/compact", S + "betree/PagedBetree_v.rs")], TLC, SMNOTE)

LF = [S + "betree/" + n for n in ("LinkedBetree_v.rs", "LinkedSeq_v.rs", "BufferDisk_v.rs", "BufferOffsets_v.rs", "SplitRequest_v.rs")] + \
     [S + "allocation_layer/" + n for n in ("LikesBetree_v.rs", "AllocationBetree_v.rs", "Likes_v.rs")] + [S + "disk/GenericDisk_v.rs"]
claim("B02", "The on-disk betrees stay whole, keep the map and count their references exactly",
      "The linked Rust betrees (nodes and buffers at disk addresses, with reference counts per page, with reference counts per allocation unit) are the same key-value map as the abstract ones under puts, queries, "
      "freezes, memtable flush, growth, split, flush and compaction. Everything reachable from the root stays stored and unchanged while other pages are dropped; new nodes and buffers go only to addresses not in "
      "use; and the recorded likes of every node and buffer always equal the number of references to it found in the tree, so nothing live is freed and nothing dead is kept counted.",
      ["histories", "inputs"], "all sequences of puts, queries, freezes and reorganisations within small bounds on keys, puts, tree shapes and disk, from empty and from prepared trees with shared buffers",
      NOTEST, LF, [("linked betree", S + "betree/LinkedBetree_v.rs"), ("reference counts", S + "allocation_layer/LikesBetree_v.rs"), ("allocation units", S + "allocation_layer/AllocationBetree_v.rs")], TLC, SMNOTE)

RF = [S + "betree/" + n for n in ("PivotBranch_v.rs", "PivotBranchRefinement_v.rs", "LinkedBranch_v.rs", "LinkedBranch_v/Refinement_v.rs")] + \
     [S + "allocation_layer/" + n for n in ("AllocationBranch_v.rs", "MiniAllocator_v.rs")] + [S + "spec/KeyType_t.rs"]
claim("B03", "B+tree branches are exactly sorted maps, and sealed ones own exactly their units",
      "The Rust B+tree branches (in memory, linked pages on disk, under construction in allocation units) hold exactly the keys and messages inserted or appended, in order and reachable by their pivots; growing and splitting "
      "never change the map, and a query answers exactly the message of its key. Pages of a branch are distinct and taken only from its own units; sealing keeps exactly the units that hold its pages, records them "
      "in the branch's summary and gives back all others.",
      ["histories", "inputs"], "all sequences of inserts, appends, growth, splits, unit fills and seals within small bounds on keys, nodes, height and units, from single leaves and from prepared trees",
      NOTEST, RF, [("insert/append/split", S + "betree/LinkedBranch_v.rs"), ("split", S + "betree/PivotBranch_v.rs"), ("fill/append/seal", S + "allocation_layer/AllocationBranch_v.rs")], TLC, SMNOTE)

AF = [S + "allocation_layer/" + n for n in ("AllocationBranchBetree_v.rs", "AllocationBranch_v.rs", "MiniAllocator_v.rs")] + [S + "betree/" + n for n in ("LinkedBetree_v.rs", "LinkedBranch_v.rs", "BufferDisk_v.rs")]
claim("B04", "The betree over branches owns its space exactly, through builds and compactions",
      "The Rust betree whose buffers are B+tree branches (AllocationBranchBetree) is the same key-value map under puts, queries, freezes and every reorganisation, including compactions that begin, run beside other steps, "
      "are aborted or installed, and branches that are built, sealed and linked in. A step takes only allocation units nobody holds and gives back only units it held; units held are exactly those of the tree's nodes, of the "
      "branches it refers to, of the inputs of running compactions (which stay readable) and of branches being built, each unit with one purpose; reference counts and branch summaries equal those found in the pages. "
      "A sealed branch holding the buffered writes can be linked in, and the finished result of a running compaction can be installed, whose content must be exactly the merge of its inputs.",
      ["histories", "inputs"], "all sequences of puts, reorganisations, branch builds, aborts and overlapping compactions within small bounds, from empty, prepared and mid-compaction states",
      NOTEST, AF, [("compact begin/abort/complete, flush", S + "allocation_layer/AllocationBranchBetree_v.rs"), ("build/seal", S + "allocation_layer/AllocationBranch_v.rs")], TLC, SMNOTE)

KF = [S + "implementation/Cache_v.rs", S + "spec/AsyncDisk_t.rs"]
claim("K01", "A page cache over an unordered disk is one array that never loses a write",
      "The Rust page cache (Cache) joined with the asynchronous disk (AsyncDisk), which serves outstanding requests in any order, behaves as one array of pages: a read through the cache returns the latest content of the page, "
      "and reserving, loading, writing back, evicting and the disk's own work never change what is read, in particular no earlier write lands over a later one. A page reported clean (evictable) is what the disk holds. "
      "Every filled page stays readable, writable unless it is being written back, and, when dirty, able to be written back; clean pages can be evicted, absent ones loaded while there is room, and every response of the disk accepted.",
      ["schedules", "histories"], "all interleavings of accesses, loads, write-backs, evictions and disk steps, with batches of requests and responses, within small numbers of pages, slots and request ids",
      NOTEST, KF, [("cache transitions", S + "implementation/Cache_v.rs"), ("disk", S + "spec/AsyncDisk_t.rs")], TLC, SMNOTE)

YF = [S + "trusted/SystemModel_t.rs", S + "implementation/ConcreteProgramModel_v.rs", S + "implementation/AtomicState_v.rs", S + "implementation/DiskLayout_v.rs", S + "spec/AsyncDisk_t.rs", S + "spec/MapSpec_t.rs", S + "spec/FloatingSeq_t.rs", S + "spec/TotalKMMap_t.rs"]
claim("S01", "The program over a crashing asynchronous disk is a crash-safe key-value store",
      "The Rust system model (SystemModel running the superblock program of ConcreteProgramModel and AtomicState over AsyncDisk, whose requests complete in any order and are lost in a crash) behaves as a single key-value map: every answered get and put "
      "takes effect once between request and reply, with the value the map then holds. After a crash at any point, with any requests outstanding, recovery finds the contents after some prefix of the puts, and that prefix includes "
      "every put executed before a sync request that the program accepted and later answered.",
      ["schedules", "crash_points", "histories"], "all interleavings of client requests, program steps, disk steps, syncs, crashes and recoveries within small numbers of keys, values, requests and crashes",
      NOTEST, YF, [("superblock program", S + "implementation/AtomicState_v.rs"), ("system", S + "trusted/SystemModel_t.rs"), ("asynchronous disk", S + "spec/AsyncDisk_t.rs")], TLC, SMNOTE)
claim("S02", "The trusted map specifications mean a linearizable map with prefix crashes",
      "The Rust top-level specification machines in MapSpec (the map, the asynchronous map with requests and replies, the crash-tolerant asynchronous map with syncs) permit only behaviours of one key-value map: a get returns the value last put, "
      "an answer goes to the request that asked and only once, a crash falls back to the contents after a prefix of the puts no older than the stable version, the stable version only moves forward, and a sync is answered only when all puts executed before it are stable.",
      ["schedules", "crash_points", "histories"], "all behaviours of the specification machines within small numbers of keys, values, requests and crashes",
      NOTEST, [S + "spec/MapSpec_t.rs", S + "spec/FloatingSeq_t.rs", S + "spec/TotalKMMap_t.rs", S + "spec/Messages_t.rs"],
      [("crash-tolerant map", S + "spec/MapSpec_t.rs"), ("versions", S + "spec/FloatingSeq_t.rs")], TLC, SMNOTE)

I = "Impl/"
VF = [I + n for n in ("MainHandlers.i.dfy", "CoordinationImpl.i.dfy", "QueryImpl.i.dfy", "SuccImpl.i.dfy", "InsertImpl.i.dfy", "FlushImpl.i.dfy", "FlushPolicyImpl.i.dfy", "SplitImpl.i.dfy", "GrowImpl.i.dfy", "LeafImpl.i.dfy", "NodeImpl.i.dfy",
                      "CacheImpl.i.dfy", "EvictImpl.i.dfy", "DeallocImpl.i.dfy", "BookkeepingImpl.i.dfy", "IndirectionTable.i.dfy", "BlockAllocatorImpl.i.dfy", "BucketGeneratorImpl.i.dfy", "MarshallingImpl.i.dfy")] + \
     ["lib/Buckets/BucketImpl.i.dfy", "lib/Buckets/PackedKV.i.dfy", "lib/Buckets/BoundedPivotsLib.i.dfy", "lib/DataStructures/MutableBtree.i.dfy", "lib/DataStructures/LinearMutableMap.i.dfy", "lib/DataStructures/LruImpl.i.dfy"]
claim("V01", "The Dafny VeriBetrKV store is one map, whatever its tree, cache and disk do",
      "The Dafny implementation of VeriBetrKV (the handlers in Impl/MainHandlers and all below them) behaves as one map from keys to values: a completed query returns the value last inserted (the empty value if none), and a completed "
      "successor scan returns exactly the keys with non-empty values of an interval that starts where it was asked to, in order, with their current values; this holds while nodes are flushed, split, grown, repivoted, written, evicted, "
      "deallocated and read back from the disk, whose answers come in any order. Disk requests stay within the disk and never overlap one that is outstanding, and no step fails.",
      ["histories", "schedules", "inputs"], "all histories of inserts, queries, scans and syncs, all orders of disk completions, all keys and values; sampled by seeded schedules", DTEST, VF,
      [("tree operations", I + "FlushImpl.i.dfy"), ("queries", I + "QueryImpl.i.dfy"), ("scans", I + "SuccImpl.i.dfy"), ("buckets", "lib/Buckets/BucketImpl.i.dfy"), ("references and space", I + "IndirectionTable.i.dfy")], DTLA, DNOTE)
CF = [I + n for n in ("CommitterImpl.i.dfy", "JournalistImpl.i.dfy", "JournalistMarshallingImpl.i.dfy", "JournalistParsingImpl.i.dfy", "CoordinationImpl.i.dfy", "SyncImpl.i.dfy", "IOImpl.i.dfy", "HandleReadResponseImpl.i.dfy", "HandleWriteResponseImpl.i.dfy",
                      "BlockAllocatorImpl.i.dfy", "IndirectionTable.i.dfy", "MarshallingImpl.i.dfy", "Mkfs.i.dfy", "StateBCImpl.i.dfy")] + ["lib/DataStructures/BitmapImpl.i.dfy"]
claim("V02", "The Dafny VeriBetrKV store survives any crash without losing what was synced",
      "Whenever the Dafny implementation of VeriBetrKV crashes, with any subset of its outstanding writes on the disk, it recovers to the map after some prefix of the history of completed inserts, and that prefix includes every insert that completed "
      "before a sync was requested (push-sync) that was later reported done (pop-sync), whether the sync wrote only the journal or the whole tree. This holds over repeated crashes, and recovery itself loses nothing.",
      ["crash_points", "histories", "schedules"], "all histories, all orders and subsets of disk writes at each crash, any number of crashes; sampled by seeded schedules with many crash probes each", DTEST, CF,
      [("commits", I + "CommitterImpl.i.dfy"), ("journal", I + "JournalistImpl.i.dfy"), ("tree syncs", I + "SyncImpl.i.dfy"), ("space in use", I + "BlockAllocatorImpl.i.dfy")], DTLA, DNOTE)
claim("V03", "The Dafny VeriBetrKV store never believes a damaged block",
      "When the disk answers a read of the Dafny implementation of VeriBetrKV (superblock, journal, indirection table or node) with damaged bytes, the store does not fail and does not give wrong answers: until it gets the true bytes it does not answer, "
      "and everything it answers is what the map holds; after a crash and true reads everything synced is there.",
      ["inputs", "crash_points", "histories"], "all histories with any number of damaged reads of any block at any time; sampled by seeded schedules with single-bit damage", DTEST,
      [I + n for n in ("MarshallingImpl.i.dfy", "IOImpl.i.dfy", "CommitterImpl.i.dfy", "JournalistParsingImpl.i.dfy", "HandleReadResponseImpl.i.dfy", "IndirectionTable.i.dfy")] + ["lib/Marshalling/GenericMarshalling.i.dfy"],
      [("checksums and parsing", I + "MarshallingImpl.i.dfy"), ("answers of reads", I + "IOImpl.i.dfy")], DTLA, DNOTE)
claim("V04", "Cloning a key prefix in the Dafny VeriBetrKV store copies exactly those keys",
      "A clone operation of the Dafny implementation of VeriBetrKV (Impl/CoordinationImpl clone, Impl/CloneImpl) that completes makes every key that starts with the target prefix hold what the key with the source prefix in its place holds at that moment, and changes nothing else. "
      "Later inserts, queries and scans of either side see their own versions only, through flushes, splits, evictions and reads of shared nodes, and crash recovery replays clones like inserts.",
      ["histories", "inputs", "crash_points"], "all histories of inserts, clones, queries, scans, syncs and crashes; sampled by seeded schedules", DTEST,
      [I + n for n in ("CloneImpl.i.dfy", "CoordinationImpl.i.dfy", "NodeImpl.i.dfy", "FlushImpl.i.dfy", "SplitImpl.i.dfy", "QueryImpl.i.dfy", "BucketGeneratorImpl.i.dfy", "CommitterImpl.i.dfy")] +
      ["lib/Buckets/TranslationImpl.i.dfy", "lib/Buckets/TranslationLib.i.dfy", "lib/Buckets/LKMBPKVOps.i.dfy"],
      [("clone", I + "CloneImpl.i.dfy"), ("key translation", "lib/Buckets/TranslationImpl.i.dfy"), ("restricting shared children", I + "NodeImpl.i.dfy")], DTLA, DNOTE)
claim("V05", "Every operation on the Dafny VeriBetrKV store gets done",
      "In the Dafny implementation of VeriBetrKV, an insert, query or scan that the client keeps calling, while the disk answers what it was asked and a sync is requested now and then, completes after finitely many calls, and so does a sync; "
      "no order of operations, disk completions, full journals, full caches or crashes leaves the store stuck or a request unanswered for ever.",
      ["histories", "schedules"], "all histories and orders of disk completions followed by a run in which the disk answers; sampled by seeded schedules, with a bound of 250 calls for 'finitely many'", DTEST, VF[:14] + CF[:7],
      [("commit and sync states", I + "CommitterImpl.i.dfy"), ("making room", I + "EvictImpl.i.dfy"), ("flush policy", I + "FlushPolicyImpl.i.dfy")], DTLA, DNOTE)

LNOTE = ("The compiled Dafny code of the library is executed by an interpreter of Dafny (mbt/dfy*.py) on seeded random sequences of operations (not exhaustive); TLC decides that each recorded operation and result is a step of the TLA+ specification. "
         "Trusts the interpreter; preconditions of the methods (their requires clauses) are respected by the driver.")
LTLA = "TLA+ specification of the containers; every recorded operation of the Dafny library code (executed from the sources) is checked by TLC to be a step of the specification"
LTEST = "The existing tests parse and resolve Dafny files; none runs these containers, and their faults need long histories (tombstones, resizes, splits, reuse of slots)."
L = "lib/DataStructures/"
claim("D01", "The Dafny hash tables are maps, whatever was inserted and removed before",
      "Each hash table in lib/DataStructures (LinearMutableMap, LinearContentMutableMap, MutableMapImpl) is a finite map from 64-bit keys to values: after any sequence of inserts, updates, removals, copies and moves, a lookup finds exactly the value last stored, "
      "the size and emptiness are right, an iteration visits every entry exactly once, and the old value is reported by inserts and removals. This holds for colliding keys, tombstones and resizes at any size.",
      ["histories", "inputs"], "all sequences of operations on any keys; sampled by long seeded sequences", LTEST, [L + n for n in ("LinearMutableMap.i.dfy", "LinearContentMutableMap.i.dfy", "MutableMapImpl.i.dfy", "MutableMapModel.i.dfy", "LinearMutableMapBase.i.dfy")],
      [("fixed-size table", L + "LinearMutableMap.i.dfy"), ("table of linear values", L + "LinearContentMutableMap.i.dfy"), ("table on the heap", L + "MutableMapImpl.i.dfy")], LTLA, LNOTE)
claim("D02", "The Dafny balanced tree is an ordered map, whatever was inserted before",
      "The mutable B-tree in lib/DataStructures (MutableBtree, instantiated by KMBtree with byte-string keys) is an ordered map: after any sequence of inserts and updates a query returns the value last stored, the smallest and largest keys and "
      "emptiness are right, and the conversion to a sorted sequence lists every entry exactly once in key order. Inserts report the old value.",
      ["histories", "inputs"], "all sequences of operations on any keys; sampled by long seeded sequences", LTEST, [L + n for n in ("MutableBtree.i.dfy", "KMBtree.i.dfy", "BtreeModel.i.dfy")],
      [("insert and split", L + "MutableBtree.i.dfy"), ("queries", L + "MutableBtree.i.dfy")], LTLA, LNOTE)
claim("D03", "The Dafny bitmaps, lists, queues and sequences do what their names say",
      "The remaining containers of lib/ agree with their mathematical meaning after any sequence of operations: a bitmap (BitmapImpl) is a set whose Alloc returns a free bit exactly when there is one; the linked list (LinearDList) keeps its order in both directions "
      "and never hands out a position in use; the LRU queues (LruImpl, LinearLru) give the least recently used element; USeq is a duplicate-free sequence in insertion order; MutableVec and the linear sequences (LinearSequence) are sequences.",
      ["histories", "inputs"], "all sequences of operations; sampled by long seeded sequences", LTEST, [L + n for n in ("BitmapImpl.i.dfy", "LinearDList.i.dfy", "LruImpl.i.dfy", "LinearLru.i.dfy", "LinearUSeq.i.dfy")] + ["lib/Base/MutableVec.i.dfy", "lib/Lang/LinearSequence.i.dfy"],
      [("bitmaps", L + "BitmapImpl.i.dfy"), ("linked list", L + "LinearDList.i.dfy"), ("LRU queues", L + "LruImpl.i.dfy"), ("set in order", L + "LinearUSeq.i.dfy")], LTLA, LNOTE)

U = "lib/Buckets/"
claim("D04", "The Dafny buckets are sorted maps through flushes, splits, moves and scans",
      "The node buckets of VeriBetrKV in lib/Buckets (BucketImpl with its packed and tree forms, PackedKV, PackedStringArray, BucketFlushModel, LKMBPKVOps, and the generators of Impl/BucketGeneratorImpl) are sorted maps from keys to messages: inserts, queries, clones, splits, list moves, restriction to a range and change of prefix "
      "give exactly the entries and the weight their meaning says, and a partial flush keeps each key's newest message, in the parent or the right child, within the space allowed. A generator lists every live entry of its range once, in key order, newest first among its sources.",
      ["histories", "inputs"], "all sequences of bucket operations on any keys; sampled by long seeded sequences", LTEST.replace("tombstones, resizes, splits, reuse of slots", "mixed packed and tree forms, nearly full children, keys at pivots"),
      [U + n for n in ("BucketImpl.i.dfy", "PackedKV.i.dfy", "PackedStringArray.i.dfy", "BucketFlushModel.i.dfy", "LKMBPKVOps.i.dfy", "BucketsLib.i.dfy", "BucketWeights.i.dfy", "TranslationImpl.i.dfy")] + ["Impl/BucketGeneratorImpl.i.dfy"],
      [("buckets", U + "BucketImpl.i.dfy"), ("flush", U + "LKMBPKVOps.i.dfy"), ("packed form", U + "PackedKV.i.dfy"), ("scans", "Impl/BucketGeneratorImpl.i.dfy")], LTLA, LNOTE)
claim("D05", "The Dafny pivot tables route every key, and translations rename exactly a prefix",
      "The pivot tables of lib/Buckets/BoundedPivotsLib (routing, containment, well-formedness, insertion and splits of tables) assign every key between the first and last pivot to the one interval that holds it, also across a split or a new pivot. "
      "The prefix translations of lib/Buckets/TranslationImpl and TranslationLib map each key with the old prefix to the one with the new prefix and back, compose, and translate pivot tables and edge tables so that exactly the keys in range are reached, at either end of a prefix's range too.",
      ["inputs", "histories"], "all pivot tables, keys and prefixes; sampled by seeded sequences of small tables with keys at and next to the pivots", LTEST.replace("tombstones, resizes, splits, reuse of slots", "prefixes ending in the largest byte, pivots at the bounds"),
      [U + n for n in ("BoundedPivotsLib.i.dfy", "TranslationImpl.i.dfy", "TranslationLib.i.dfy", "TranslationApply.s.dfy")],
      [("pivot tables", U + "BoundedPivotsLib.i.dfy"), ("translation", U + "TranslationImpl.i.dfy"), ("meaning of translations", U + "TranslationLib.i.dfy")], LTLA, LNOTE)
FF = ["lib/Marshalling/GenericMarshalling.i.dfy", U + "PackedKVMarshalling.i.dfy", U + "PackedStringArrayMarshalling.i.dfy", "Impl/MarshallingImpl.i.dfy", "Impl/IndirectionTable.i.dfy",
      "ByteBlockCacheSystem/Marshalling.i.dfy", "BlockCacheSystem/DiskLayout.i.dfy"]
FNOTE = ("The compiled Dafny code of the formats is executed by an interpreter of Dafny (mbt/dfy*.py) on seeded random values, blocks and damaged bytes (not exhaustive; some sizes are reduced); TLC decides that each recorded result is the one the TLA+ format gives. "
         "Trusts the interpreter. Array lengths written in a block are kept below a few thousand by the driver.")
FTLA = "TLA+ specification of the bytes on disk; every recorded write, parse and checksum of the Dafny code (executed from the sources) is checked by TLC to be what the specification gives"
claim("D06", "The Dafny disk formats read back what was written and reject the rest",
      "The disk formats of VeriBetrKV (lib/Marshalling/GenericMarshalling, the packed strings and buckets of lib/Buckets, the nodes, indirection tables and superblocks of Impl/MarshallingImpl and Impl/IndirectionTable, and the places on the disk of BlockCacheSystem/DiskLayout) "
      "write exactly the reported number of bytes and read back the value written. Parsing other bytes accepts exactly the encodings of well-formed values (sorted pivots and keys, bounded lengths, valid edges, unused addresses, right checksum) and rejects all others without failing.",
      ["inputs"], "all values of each format and all byte strings of a block; sampled by seeded values and by damaging written blocks", LTEST.replace("containers", "parsers").replace("tombstones, resizes, splits, reuse of slots", "rare counts and bytes at the limits"),
      FF, [("grammar and values", FF[0]), ("nodes, tables, superblocks", FF[3]), ("packed buckets", FF[1]), ("places on disk", FF[6])], FTLA, FNOTE)
claim("D07", "The Dafny checksums are CRC-32C and journal blocks read back their entries",
      "The checksums of lib/Checksums (over sequences and arrays, any length and offset) are the CRC-32C of the bytes. Journal entries written into blocks by Impl/JournalistMarshallingImpl are read back by Impl/JournalistParsingImpl exactly, in order, from any start in the "
      "ring of blocks, and damaged blocks or malformed entries are rejected without failing.",
      ["inputs", "histories"], "all byte strings and all runs of journal entries; sampled by seeded strings of each length and runs of entries with damaged blocks", LTEST.replace("containers", "functions").replace("tombstones, resizes, splits, reuse of slots", "rare lengths and offsets"),
      ["lib/Checksums/CRC32CImpl.i.dfy", "lib/Checksums/CRC32CArrayImpl.i.dfy", "lib/Checksums/CRC32C_Lut.i.dfy", "Impl/JournalistMarshallingImpl.i.dfy", "Impl/JournalistParsingImpl.i.dfy"],
      [("checksum", "lib/Checksums/CRC32CImpl.i.dfy"), ("writing journal blocks", "Impl/JournalistMarshallingImpl.i.dfy"), ("reading journal blocks", "Impl/JournalistParsingImpl.i.dfy")], FTLA, FNOTE)
