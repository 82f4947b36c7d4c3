BASIC = ("All paths of the named functions are covered (every branch combination, loops by their recurrences), for every input, arity and element type; "
         "a violation is only reported with a concrete value assignment that separates the computed value from the required one.")

prop("C01", "A proof is accepted only if the recomputed root matches its root",
     "Validating a proof answers true only when hashing the leaf upwards through every sibling of the proof, at the positions named by its path, yields exactly the root carried by the proof, and, for compound proofs, only when the nested proof validates and its root takes part in the upper layer. Malformed proofs (missing, short or over-long lemma or path) are never accepted. Validating with data additionally requires that the leaf hash of the data equals the proven leaf.",
     ["inputs", "configurations"], "every proof value (well formed or adversarial), every arity combination, every hash algorithm",
     "Tests mutate a handful of generated proofs at chosen positions; acceptance must be impossible for every lemma/path content and shape.",
     ["src/proof.rs"], [("Proof::validate", "src/proof.rs"), ("Proof::validate_sub_tree_proof", "src/proof.rs"), ("Proof::validate_with_data", "src/proof.rs")],
     observe=["return value of validate / validate_with_data", "item()", "root()"],
     note="Decides the acceptance condition of the verifier for all proofs. " + BASIC + " Collision resistance of the user's hash is assumed.")

prop("C02", "Leaf and interior hashes are domain separated and order sensitive",
     "With the default hashing scheme a leaf digest is computed over a leaf marker followed by the complete leaf, and an interior digest over a different marker followed by every child completely and in order. The default reset returns a hasher to its initial state. No leaf input can therefore be read as an interior input.",
     ["inputs", "programs"], "every leaf, every number and content of children, every hasher using the default scheme",
     "Tests compare a few fixed digests of small trees; prefix, order and completeness must hold for all contents and numbers of children.",
     ["src/hash.rs"], [("Algorithm::leaf", "src/hash.rs"), ("Algorithm::node", "src/hash.rs"), ("Algorithm::multi_node", "src/hash.rs"), ("Algorithm::reset", "src/hash.rs")],
     observe=["bytes written to the hasher by leaf/node/multi_node"],
     note="Typestate/effect analysis of the hasher argument: the exact sequence of bytes written is derived for all inputs. " + BASIC)

prop("C03", "Hasher state never leaks from one digest into another",
     "Every leaf or interior digest computed while building a tree, combining sub trees or validating a proof is a function of only that node's inputs: the hasher used is in its initial state before the node's input is fed, whatever was hashed before with it. This holds for every way of building a tree, sequential or parallel.",
     ["inputs", "histories", "programs", "schedules"], "every construction path, every hash algorithm (stateful ones included), every order of hashing",
     "Test hashers mostly tolerate missing resets or are freshly created per node; state leakage appears only for specific algorithms and call orders.",
     ["src/merkle.rs", "src/proof.rs", "src/store/mod.rs", "src/store/disk.rs", "src/store/level_cache.rs"],
     [("A::default()/reset before leaf/node/hash", "all callers of Algorithm")], observe=["hasher state at each call of leaf/multi_node/hash"],
     technique="typestate analysis of hasher objects on MIR (fresh -> fed -> finished), interprocedural",
     note="Every call site of a digest operation reachable from a public constructor, Store implementation or verifier is an obligation; the typestate of its hasher must be 'initial' on all paths.")

prop("C04", "The level tag given to the hasher when building and verifying agrees",
     "Hashers receive the height of the node being built; the k-th level above the leafs gets tag k, counted from zero, identically in every store implementation and build path. The verifier passes the same tag for the same level, and the tag of the nodes combining sub trees is the same when built and when verified.",
     ["inputs", "configurations", "programs"], "every tree size, arity, compound shape and store type, every height-sensitive hash algorithm",
     "All hash algorithms in the tests ignore the height argument or are insensitive to it in compound shapes, so a disagreement is invisible to them.",
     ["src/store/mod.rs", "src/store/disk.rs", "src/store/level_cache.rs", "src/merkle.rs", "src/proof.rs"],
     [("Store::process_layer level argument", "src/store"), ("Proof::validate height argument", "src/proof.rs")], observe=["height argument of multi_node"],
     note="Recurrence of the level argument in each build loop and of the height argument in the verifier. " + BASIC)

prop("C05", "Proofs of a plain tree contain exactly the siblings on the leaf's path",
     "A proof generated for leaf i of a plain tree starts with the leaf itself, then lists for each level, in order, exactly the other members of the sibling group holding the current node, and ends with the root; its path holds the node's position inside each group. The level bases and widths follow the tree's layout for every arity. The proof's layer description matches the type of the tree.",
     ["inputs", "configurations"], "every tree size, arity and leaf index",
     "Tests enumerate small trees with arities 2, 4 and 8; index arithmetic must be right for every size, arity and index.",
     ["src/merkle.rs", "src/proof.rs"], [("MerkleTree::gen_proof", "src/merkle.rs"), ("Proof::new", "src/proof.rs")], observe=["lemma(), path(), top/sub layer arity of the generated proof"],
     note="Loop recurrences of the upward walk (index, width, base) and the element-wise contents of lemma and path. " + BASIC)

prop("C06", "Compound trees route every leaf to the right sub tree",
     "Leaf i of a tree made of sub trees is leaf (i mod q) of sub tree (i div q), where q is the number of leafs per sub tree, for lookups and for plain and cached proofs alike, through both compound levels. A compound proof lists the roots of all the other sub trees in order, then the tree's root, and its path names the sub tree holding the leaf. Range and buffer reads on a plain tree deliver exactly what its store delivers for the requested range.",
     ["inputs", "configurations"], "every compound shape, arity and leaf index",
     "Tests use one to two shapes per arity; routing must hold for each shape and index.",
     ["src/merkle.rs"], [("MerkleTree::gen_sub_tree_proof and cached variants", "src/merkle.rs"), ("MerkleTree::read_at", "src/merkle.rs")], observe=["generated proofs, read results"],
     note="Divisor, remainder, selected child and sibling list of each routing step, for both layers. " + BASIC)

prop("C07", "Leaf indexes out of range are rejected, never answered",
     "Requesting a leaf of a compound tree, or a plain or cached proof from any tree, with an index at or beyond the tree's number of leafs yields an error; no value, proof or panic is ever produced for it.",
     ["inputs", "configurations"], "every tree shape, every index",
     "Tests probe in-range indexes; the first index out of range depends on shape, and compound trees fail differently from plain ones.",
     ["src/merkle.rs"], [("index guards", "src/merkle.rs gen_proof, gen_cached_proof, read_at")], observe=["Result of gen_proof/gen_cached_proof/read_at"],
     note="Path facts at every successful return must entail index < leafs. " + BASIC)

prop("C08", "Store reads return exactly the requested elements or fail",
     "A store read succeeds only if the whole requested range lies below the store's element count, and then delivers exactly the bytes of the requested elements, in order, each from its own offset: single elements, ranges and reads into buffers agree. The reported length, emptiness and last element are those of the stored elements.",
     ["inputs", "histories"], "every store type, element size, store length, and requested range",
     "Tests read ranges they just wrote; out-of-range and buffer-size cases of each store are largely unexercised.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/vec.rs", "src/store/mod.rs"],
     [("Store::read_*", "src/store/*.rs"), ("DiskStore::store_read_range / store_read_into", "src/store/disk.rs")], observe=["read results and buffers"],
     note="For each read method: range guard at every successful return and the byte provenance of the delivered value. " + BASIC)

prop("C09", "Store writes put exactly the given elements at the given place",
     "Writing an element or a buffer to a store places exactly the given bytes, at the byte offset of the given element index, and nothing else changes; writes beyond what the store can hold are refused where the store is bounded, and so are bytes that do not make up whole elements. Afterwards the store's length covers the written elements and never shrinks. A store created from a slice contains exactly the slice.",
     ["inputs", "histories"], "every store type, element, buffer, index and prior content",
     "Tests write whole trees front to back; partial overwrites, gaps and length updates of each store are largely unexercised.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/vec.rs"],
     [("Store::write_at / copy_from_slice / push / new_from_slice", "src/store/*.rs")], observe=["store contents, len()"],
     note="Write regions, bytes and length updates of every write method, compared with their specification on every path. " + BASIC)

prop("C10", "Reads from a compacted store fetch each byte from where it lives",
     "A compacted store serves base-layer ranges from the external source if one is set (same offset, shifted by the base offset), otherwise from the front of the file; cached rows are served from where compaction put them in the file; any range touching discarded rows is refused.",
     ["inputs", "configurations", "histories"], "every geometry (base width, cache start), every range, with and without external source",
     "Tests exercise reads made by proof generation only; the boundary ranges between base, discarded and cached regions are not probed.",
     ["src/store/level_cache.rs", "src/store/mod.rs"], [("LevelCacheStore::store_read_range/_into/_internal", "src/store/level_cache.rs"), ("ExternalReader::read", "src/store/mod.rs")],
     state=[("cache_index_start", "logical offset of the first cached byte", "src/store/level_cache.rs"), ("data_width", "elements in the base layer", "src/store/level_cache.rs")],
     observe=["read results"],
     note="Address translation is compared with its specification on every path, under the store invariant cache start >= base width. " + BASIC)

prop("C11", "Compaction keeps exactly the base layer and the cached rows",
     "Compacting a disk store keeps its last rows (those selected by the number of rows to discard) and, in the older format, also the base layer in front of them; dropping rows from a level-cache store while building moves the kept bytes to the front. The file is cut only after all kept bytes have been copied and exactly behind them, and success is reported only for a synced file of the right size whose element count has been updated. Stores that cannot be compacted keep their elements, and nothing is moved if the cached part is empty or as large as the store.",
     ["inputs", "configurations", "histories"], "every store size, arity, number of rows to discard and format version",
     "Tests compact a few trees and generate proofs from them; offsets, order of copy and cut and failure handling must be right for all.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/vec.rs", "src/merkle.rs"],
     [("Store::compact", "src/store/*.rs"), ("LevelCacheStore::front_truncate", "src/store/level_cache.rs"), ("MerkleTree::compact", "src/merkle.rs")],
     observe=["file contents and length, len(), Result"],
     note="Source and target positions, byte counts, order and durability of the file operations on every path. " + BASIC)

prop("C13", "A constructed tree's metadata and root describe its store",
     "Every constructor returns a tree whose leaf count is the number of leafs supplied (compound: the sum over sub trees), whose node and row counts follow from it, and whose root is the one built in, or stored at the end of, the very store it holds (compound: the hash of the sub tree roots in order). Input i becomes leaf or sub tree i, with its own configuration. Inputs of invalid size, arity or shape are refused instead of producing a tree.",
     ["inputs", "configurations"], "every constructor, every input size and shape",
     "Tests cover a few constructors and sizes and compare roots among them; metadata and guards must be right for all.",
     ["src/merkle.rs"], [("MerkleTree constructors", "src/merkle.rs")], observe=["len(), leafs(), row_count(), root(), store contents handed over"],
     note="The aggregate returned by each of the constructors is compared field by field with the specification in terms of the inputs and of the size functions. " + BASIC)

prop("C14", "Parallel level hashing is a schedule independent exact partition",
     "When a level is hashed in parallel the tasks read consecutive, non-overlapping chunks that together cover the level, never splitting a sibling group, and each task writes all its parents, in order, at the place determined by its own chunk. The result is therefore the same for every interleaving of the tasks.",
     ["schedules", "inputs", "configurations"], "every schedule of the worker tasks, level width, arity and store type",
     "Thread interleavings and large multi-chunk levels are not controllable in tests; most tests build levels of a single chunk.",
     ["src/store/mod.rs", "src/store/disk.rs", "src/store/level_cache.rs"], [("Store::process_layer", "src/store/mod.rs, disk.rs, level_cache.rs")], observe=["store contents after a build"],
     technique="effect and region analysis of the parallel closure on MIR: read/write regions as functions of the task index",
     note="The region read and the region written by task i are derived symbolically and compared with the exact partition; writes of different tasks are disjoint by construction of the offsets. Writes go through the store's lock.")

prop("C15", "Building computes every level, at its place, up to the single root",
     "Building a tree hashes each level completely, in consecutive groups of the arity, stores the parents directly after the level, ends with exactly one node, and returns that node as root. It fails rather than return a root if the arity, the number of levels or the number of leafs in the store do not fit. Stores that keep only upper rows drop exactly the levels below them and nothing else.",
     ["inputs", "configurations"], "every leaf count, arity, row count and store type; both the small-tree and the large-tree path",
     "The large-tree path and mid-size geometries run only for a few sizes; offsets and termination must be right for all.",
     ["src/store/mod.rs", "src/store/disk.rs", "src/store/level_cache.rs"], [("Store::build / build_small_tree", "src/store/*.rs"), ("LevelCacheStore::front_truncate calls", "src/store/level_cache.rs")], observe=["root returned, store contents and length"],
     note="Loop recurrences of read start, write start, width and level for all build implementations, and guards at every successful return. " + BASIC)

prop("C22", "Cached proofs combine store and rebuilt rows consistently",
     "A proof generated from a partially discarded tree rebuilds exactly the aligned block of leafs under the cached node above the requested leaf, takes siblings in discarded rows from that partial tree at the node's own position, and all others from the store. Its leaf, siblings, path and root are placed as in a plain proof. The number of discarded rows used is the caller's, capped by the default.",
     ["inputs", "configurations"], "every tree size, arity, leaf index and number of discarded rows",
     "Tests use a few geometries; segment and offset arithmetic must be right for all rows-to-discard and indexes.",
     ["src/merkle.rs"], [("MerkleTree::gen_cached_proof / gen_proof_with_partial_tree", "src/merkle.rs")], observe=["generated proof"],
     note="Segment bounds, source of each sibling by region and the recurrences of index, widths, bases and segment offset. " + BASIC)

prop("C23", "Hashing a value feeds all of it, once, in order",
     "Hashing a value of any supported standard type (integers, booleans, characters, strings, tuples, arrays, slices, vectors, references) feeds the hasher its complete contents exactly once, components in declaration order. Hashing a slice feeds every element in order.",
     ["inputs", "programs"], "every value of every supported type, every hasher",
     "Tests hash a couple of tuples and strings; a truncated, repeated or reordered feed for another type or length passes unnoticed.",
     ["src/hash_impl.rs", "src/hash.rs"], [("Hashable impls", "src/hash_impl.rs")], observe=["bytes written to the hasher"],
     technique="effect analysis of the hasher argument on MIR: exact sequence of writes per implementation",
     note="One obligation set per Hashable implementation in the crate, over all inputs.")

prop("C12", "A failing storage operation makes the whole operation fail",
     "Whenever a file operation, a store operation, an external read or a construction step fails inside an operation that returns a Result, that operation returns an error: it does not report success, go on with the next step, or panic. The only tolerated failure is opening an existing file for writing, which falls back to opening the same file read-only. This holds wherever the failure occurs, including inside parallel tasks and while deleting, syncing or compacting.",
     ["crash_points", "inputs", "histories", "schedules"], "every operation of every store and of the tree, every fallible call in it, every point of failure",
     "Tests run on a healthy file system, so no file operation in them ever fails; every ignored error passes them.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/mod.rs", "src/store/vec.rs", "src/merkle.rs"],
     [("every call returning Result in an operation that returns Result", "src/store/*.rs, src/merkle.rs")], observe=["Result of each operation"],
     technique="path-sensitive error-flow analysis on MIR: path conditions as decision diagrams; every return and loop iteration reachable after a fallible call must entail its success",
     note="For each public operation every fallible storage call reachable in it (callees and closures included) is one obligation: no success return, further iteration or panic is reachable under its failure. Only failures reported through a Result are covered; iterators that yield elements without a Result and faults of memory mappings are not.")

prop("C16", "Populating a store stores every input leaf exactly once, in order",
     "Every constructor that fills a store, sequentially or in parallel, stores for the k-th item supplied the leaf hash of exactly that item, computed by a hasher in its initial state, as k-th element. No leaf is dropped, repeated or moved, whatever the number of items and however they are buffered or split into chunks, and parallel tasks place their chunk independently of each other. An error item ends the construction with an error, and the store is synced after its last leaf and before the tree is built on it.",
     ["inputs", "schedules", "configurations"], "every sequence of items of any length, every schedule of the parallel tasks, every constructor and store type",
     "The flush and chunk boundary is at 262144 leafs; tests stay far below it, so neither repeated flushes nor several parallel chunks ever run in them.",
     ["src/merkle.rs"], [("populate_data, populate_data_par and the constructors calling them", "src/merkle.rs")], observe=["store contents when the tree is built"],
     note="Induction over the population loop: bytes written plus bytes buffered grow by exactly one leaf per item, at the place behind the previous ones; nothing is left in the buffer; chunk offsets tile the input. " + BASIC)

prop("C17", "Opening or deleting a store touches only its own file and keeps its data",
     "The file of a configured store is determined by the configuration's directory and identifier alone, distinctly for distinct identifiers, and creating, opening or deleting a store acts on that file only. An existing file is opened, never emptied, cut or overwritten, by any constructor of a store or tree, whether the store opened is then accepted or refused, and new files are created only where none existed. A tree constructor given a store loaded from existing data neither writes to it nor builds it again.",
     ["inputs", "histories", "configurations"], "every configuration, every prior content of the directory, every constructor of the file based stores and of trees",
     "Tests start from an empty temporary directory; what a constructor does to a file that is already there, fits or not, hardly ever runs in them.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/mod.rs", "src/merkle.rs"],
     [("new_with_config, new_from_disk, new_from_slice_with_config, delete", "src/store/*.rs"), ("StoreConfig::data_path", "src/store/mod.rs"), ("constructors checking loaded_from_disk", "src/merkle.rs")],
     observe=["files in the store's directory before and after a constructor or delete"],
     technique="effect analysis on MIR: every file-system effect of a constructor is attributed to the path and open mode of its handle under its path condition",
     note="Every function of the crate that opens, creates or removes a file is found by a scan of its MIR and must be covered. Per effect: path, open options, and the conditions under which it happens.")

prop("C18", "A store reopens only a file that fits, with fields that describe it",
     "Opening an existing store succeeds only if the file has exactly the size the configuration calls for (for a level cache with an external reader, exactly its cached rows) and, for a level cache, the leaf count is a power of two. The store produced has that many elements, records the file's true size and that it was loaded, and knows where its cached rows start. A newly created store is empty and its file has room for every element, and the consistency checks compare the file's actual size with the size expected.",
     ["inputs", "configurations", "histories"], "every configuration and every file found in its place",
     "Tests reopen files they just wrote with the same configuration; files of another size or configurations of another shape are rarely tried.",
     ["src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs"],
     [("new_from_disk, new_from_disk_with_reader, new, new_with_config, is_consistent", "src/store/*.rs")],
     observe=["Result, len(), loaded_from_disk(), reads of the store produced"],
     note="Fields of the returned aggregate and guards on every successful path, compared with the specification. A level cache of the older format opened without a reader is checked for its fields and leaf count, its size is not checked by the code. " + BASIC)

prop("C21", "Configurations and replica offsets reach the sub tree they belong to",
     "When a compound tree is opened or built from lists of data, configurations and replica offsets, its k-th sub tree is made from the k-th entries, with a replica reader for the k-th offset, and nested levels receive consecutive runs of equal length; lists whose lengths do not fit are refused. An external reader opens the path given for reading, starts at the offset of its index and returns exactly the bytes asked for, and a configuration holds the values it was made from. Attaching a source changes the reader of a plain tree's store and nothing else, and compound trees refuse it.",
     ["inputs", "configurations"], "every list of configurations, offsets and data slices, all arities, every range read through a reader",
     "Tests use identical sub trees of one shape, so entries exchanged between sub trees or left out give the same root.",
     ["src/merkle.rs", "src/store/mod.rs", "src/store/level_cache.rs"],
     [("MerkleTree::from_store_configs*, from_sub_tree_store_configs*, from_slices_with_configs, set_external_reader_path", "src/merkle.rs"), ("ExternalReader, ReplicaConfig, StoreConfig constructors", "src/store/mod.rs")],
     observe=["root and leaves of compound trees", "bytes served for leaves kept outside the store"],
     technique="abstract interpretation of the constructors on MIR: per-element provenance of every sub tree's configuration, offset and data, list-length guards on every success path",
     note="Element provenance is derived as a closed form over the index of the sub tree, however the loop is written. " + BASIC)
prop("C20", "Parallel iteration visits every element of a store once, in order",
     "Iterating over a memory or disk store with rayon, by value or by reference, covers exactly the store's elements: the whole range is handed out, every split divides a range into two adjacent parts at the index asked for, and an iterator delivers the element at its own end of the range and moves that end by one. It ends only when its range is exhausted or a read failed, and after a failed read it delivers nothing more. The lengths announced are the numbers of elements remaining.",
     ["inputs", "schedules", "histories"], "every store length, every splitting schedule rayon chooses, every mix of front and back iteration, every failing read",
     "How rayon splits depends on threads and timing, and a failing read never happens in tests; uneven splits, empty parts and reverse iteration are not exercised.",
     ["src/store/mod.rs"], [("impl_parallel_iter: Producer::split_at, into_iter, Iterator::next, next_back, with_producer", "src/store/mod.rs")],
     observe=["elements delivered by par_iter / into_par_iter"],
     technique="abstract interpretation of the producer and iterator on MIR: their range and stop flag as functions of state, transition obligations per method",
     note="The range of an iterator is derived from what next and next_back read, not from field names; each method's effect on it is an obligation on every path. Rayon's bridge is assumed to consume producers as documented. " + BASIC)

prop("C19", "Parallel building never blocks on itself",
     "While a thread holds a store's lock it neither takes a lock again, nor waits for another thread, nor starts parallel work that could run another task needing that lock, whichever store implementation it calls through. Every guard taken is released by the end of the function that took it. Building a tree in parallel can therefore not deadlock, whatever the thread count and the order in which rayon runs the tasks.",
     ["schedules", "configurations"], "every schedule of the worker threads, every thread pool size, every store implementation of the crate",
     "A deadlock needs a particular stealing order: a worker that holds the write lock must wait inside a parallel call and steal a task that wants the same lock; test runs almost never meet it.",
     ["src/merkle.rs", "src/store/mod.rs"],
     [("populate_data_par", "src/merkle.rs"), ("Store::process_layer, build", "src/store/mod.rs")],
     observe=["build and from_par_iter return"],
     technique="guard-liveness dataflow on MIR control-flow graphs combined with a may-block analysis over the call graph",
     note="Every function of the crate is scanned; each acquisition and each call made while a guard may be live is an obligation. Calls through Store are resolved to every implementation, closures to their bodies. User-supplied hashers are assumed not to use the crate's locks.")

prop("C24", "Tree shape arithmetic agrees with the trees it describes",
     "For every number of leafs and every arity the length, row count, leaf count and cache size functions agree with the complete tree of that shape: its elements in total, its rows, the inverse of its length, and the elements left when rows are discarded. They are errors for shapes that are not trees or when discarding would leave no row. The lemma length, the length of compound trees, the size check and the default number of rows discarded follow from the same shape.",
     ["inputs", "configurations"], "every leaf count, arity and number of discarded rows whose tree fits a machine word",
     "Tests check a few small sizes of arity 2, 4 and 8; rounding and overflow show up at large heights, odd lengths and other arities.",
     ["src/merkle.rs", "src/store/mod.rs"],
     [("get_merkle_tree_len, get_merkle_tree_leafs, get_merkle_tree_row_count, get_merkle_tree_cache_size", "src/merkle.rs"),
      ("get_merkle_proof_lemma_len, get_merkle_tree_len_generic, is_merkle_tree_size_valid", "src/merkle.rs"), ("StoreConfig::default_rows_to_discard", "src/store/mod.rs")],
     observe=["values and errors of the shape functions"],
     technique="abstract interpretation of the shape functions on MIR to recurrences; loop invariants preserved by the step; decision of the equations over all shapes",
     note="Loops are discharged by an inductive invariant over the derived step; the resulting equations are compared with the definition of the quantity for all powers up to 2^62 and lengths around them, which yields the witness. Floating point logarithms are evaluated as IEEE doubles/singles with correctly rounded libm results. Arity 1 is excluded.")

prop("C25", "Tree operations reach the tree's own store and files",
     "A plain tree hands out its own store and a compound tree none; deleting a tree deletes, through the tree's store type, exactly what the given configuration names. Re-initialising a tree re-initialises its own store and is refused by compound trees. Syncing a file-backed store reports success only after the operating system was asked to write that store's own file out, and the loaded-from-disk flag reports what was recorded when the store was opened.",
     ["inputs", "histories", "configurations"], "every tree and store, every path to a successful return",
     "Tests call these operations once on a fresh tree and look at the result only; a skipped sync or delete is invisible until a crash or a later reopening.",
     ["src/merkle.rs", "src/store/disk.rs", "src/store/level_cache.rs", "src/store/mod.rs"],
     [("MerkleTree::data, delete, reinit", "src/merkle.rs"), ("Store::sync, loaded_from_disk", "src/store/*.rs")],
     observe=["data(), files after delete(), data on stable storage after sync()"],
     technique="effect analysis on MIR: must-call obligations on every successful path, with the provenance of the target",
     note="The condition of every successful return must imply that the required call was made, on the object the tree or store holds. " + BASIC)

prop("C26", "An element and its bytes determine each other",
     "The length reported for an array element is the length of the array. Reading an element from bytes yields exactly those bytes and no other number of bytes is accepted; writing an element fills the whole buffer with exactly its bytes. Storing an element and reading it back therefore gives the same element.",
     ["inputs"], "every byte string and every element",
     "Tests store digests and compare whole trees of one store with another, so a conversion that loses the same byte everywhere, or accepts a short slice, goes unnoticed.",
     ["src/merkle.rs"], [("impl Element for [u8; 32]: byte_len, from_slice, copy_to_slice", "src/merkle.rs")],
     observe=["from_slice, copy_to_slice, byte_len"],
     note="Every implementation of Element for an array type is found in the MIR; every byte position is an obligation. " + BASIC)

prop("C27", "Valid requests are not refused",
     "A read within a store's length that its layout can serve, a write of whole elements that fits, a build of a power of the arity many leaves (at least two), the reopening of a file of the right size, a compaction that keeps something and frees something, and a proof for an existing leaf never panic, and they return an error only because an operation below them failed. Stores open and create their files with the access they then use, so that a new store can be written, a reopened one read and a compacted one used further. A memory mapped store always has its file mapped.",
     ["inputs", "configurations", "histories"], "every request inside the documented limits, every length, arity, index, range and configuration",
     "Tests use few sizes, so a limit that is off by one, refuses the last element, an odd arity or a single-element range, or a file opened with too little access is not met by any of them.",
     ["src/merkle.rs", "src/proof.rs", "src/store/mod.rs", "src/store/disk.rs", "src/store/level_cache.rs", "src/store/mmap.rs", "src/store/vec.rs"],
     [("Store read_*, copy_from_slice, push, build, new*, new_from_disk, compact", "src/store/*.rs"), ("MerkleTree constructors, gen_proof, gen_cached_proof, read_at, compact", "src/merkle.rs"),
      ("Proof::new, Proof::validate", "src/proof.rs")],
     observe=["Err or panic for requests inside the documented limits"],
     technique="abstract interpretation on MIR: the path condition of every refusal and panic of an operation is refuted under the documented limits of that operation; access modes of every file handle against its uses",
     note="The limits per operation are written down in rules_valid.table. Refusals that depend on what a loop accumulated, on user code or on stored data are counted but not judged. A refusal passed up from a failed call is judged at that call. " + BASIC)

prop("C28", "Proofs whose hashes agree are accepted",
     "Validating a proof of the shape the library generates answers false only because the recomputed root differs from the proof's root or the nested proof is turned down, and fails only because validating the nested proof failed. Validating together with the leaf's data answers false only if the data hash to another leaf or the proof itself is turned down.",
     ["inputs", "configurations"], "every proof of the right shape: every arity, number of levels, position inside each group, and kind of compound layer",
     "The tests validate proofs of a few shapes, at most some thousand positions each, and seldom with many levels; a proof turned down for one position or depth is not among them.",
     ["src/proof.rs"],
     [("Proof::validate, Proof::validate_with_data", "src/proof.rs")],
     observe=["false or Err from validate for a proof that the library generated"],
     technique="abstract interpretation on MIR: every path on which validation answers false or fails is matched with a disagreement, or its condition refuted for proofs of the library's shape",
     note="The shape (lemma length two plus arity less one per level, positions inside their groups; compound: one position, as many nodes as the layer has) is the one C05, C06 and C22 show for generated proofs. " + BASIC)
