#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the list stays readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MK="src/merkle.rs"; PR="src/proof.rs"; SM="src/store/mod.rs"; DK="src/store/disk.rs"; LC="src/store/level_cache.rs"; MM="src/store/mmap.rs"; VC="src/store/vec.rs"

p("C01","Built trees equal the Merkle definition under every thread schedule",
  "Building a tree from given leaves produces exactly the nodes, root, length, leaf count and row count that the Merkle definition prescribes, whichever constructor, storage backend, arity, element size, worker-thread count and thread interleaving is used. Every inclusion proof of the tree is exactly the prescribed one (leaf, siblings bottom-up, root, branch positions) and validates under the tree's hash, including hashes that depend on the level.",
  ["schedules","inputs","configurations"],
  "every leaf sequence whose length is a power of the arity, every constructor x backend x arity x element size, every worker count and every interleaving of the parallel build",
  "The tests build a few fixed sizes with whatever interleaving the OS happens to give; none controls the scheduler, checks every interior node against an independent definition, or uses a level-dependent hash.",
  [MK,SM,DK,LC,PR],
  [("parallel layer hashing, chunked with locks or disjoint mapped chunks","src/store/mod.rs process_layer/build/build_small_tree; src/store/disk.rs process_layer/build; src/store/level_cache.rs process_layer/build"),
   ("block-wise leaf population, sequential and parallel","src/merkle.rs populate_data, populate_data_par"),
   ("proof generation and validation","src/merkle.rs gen_proof; src/proof.rs validate")],
  observe=["root()","len()","read_at()","read_range()","gen_proof()","Proof::validate()"])

p("C02","Concurrent readers and provers of one tree get the sequential answers",
  "When any number of threads read, generate proofs and validate proofs on one shared tree at the same time, every call returns exactly what it would return alone, and every generated proof validates against the tree's root. This holds for every backend, including partially cached trees and compound trees, and while other trees are being built concurrently in the same process.",
  ["schedules","histories","configurations"],
  "every set of concurrent read-only operations on a shared tree and every interleaving of them with each other and with concurrent builds",
  "The tests never share a tree between threads; interleavings of positional reads and shared file cursors are not exercised at all.",
  [MK,DK,LC,MM,SM],
  [("positional (cursor-free) reads on a shared file handle","src/store/disk.rs store_read_range/store_read_into; src/store/level_cache.rs store_read_range/store_read_into"),
   ("trees are shareable between threads and reads take &self","src/merkle.rs read_at/gen_proof/gen_cached_proof")],
  observe=["read_at()","read_range()","gen_proof()","gen_cached_proof()"])

p("C03","Proofs from a partially cached tree equal proofs from the full tree",
  "After rows above the base are discarded (by compacting a full on-disk tree in either format, or by building the cached form directly), every leaf's partial-rebuild proof equals, element for element, the proof the full tree would give, and validates to the same root. Asking for a partial-rebuild proof of a full tree gives the same proof too, for every number of discarded rows the tree supports, and the retained rows and base leaves still read back as before.",
  ["configurations","histories","inputs","fault_sequences"],
  "every arity, tree size, number of rows discarded, compaction format, leaf index, and history of build / compact / drop / reopen with short or interrupted I/O in between",
  "Tests compact a handful of trees with default settings and check that proofs validate, not that they equal the full tree's proof, and never with interrupted or short transfers during the in-place move.",
  [MK,DK,LC],
  [("in-place compaction keeping the top rows","src/store/disk.rs compact"),
   ("front truncation while building the cached form","src/store/level_cache.rs build/front_truncate"),
   ("index adjustment for cached reads","src/store/level_cache.rs store_read_range/store_read_into"),
   ("segment rebuild for proofs","src/merkle.rs gen_cached_proof/gen_proof_with_partial_tree")],
  observe=["gen_cached_proof()","read_at()","read_range()","root()"])

p("C04","Every storage backend behaves as one array, even under short I/O",
  "For every sequence of element writes, bulk writes, pushes, reads, range reads, length queries, syncs and re-initialisations within its capacity, each storage backend returns exactly what a plain growable array would, and its length is the highest written position plus one. Short reads, short writes and interrupted system calls never change any result.",
  ["histories","fault_sequences","configurations"],
  "every operation sequence on every backend and capacity, with every pattern of short or interrupted transfers",
  "Tests exercise fixed call sequences on healthy files; the kernel practically never shortens or interrupts a small regular-file transfer, so retry paths never run.",
  [DK,LC,MM,VC,SM],
  [("full-transfer positional I/O","src/store/disk.rs store_read_range/store_copy_from_slice; src/store/level_cache.rs same"),
   ("length tracking","write_at/copy_from_slice/push in each backend"),
   ("bounds checks","read_at/read_range/read_into/read_range_into in each backend")],
  observe=["read_at()","read_range()","read_into()","len()","last()"])

p("C05","A failing disk is reported; it never turns into a wrong answer",
  "When a system call on a tree's storage fails (I/O error, disk full, too many open files, permission, failed mapping, a file that delivers less than its size), the operation either reports failure or still delivers the correct result: no build, open, read or proof succeeds with wrong content. Once the fault has gone, the same tree or store, or a fresh one built from the same leaves, gives correct answers.",
  ["fault_sequences","histories","configurations","schedules"],
  "every operation, every system call it makes, every error that call may return, once or persistently, under every interleaving of the workers that observe it",
  "No test injects a failing system call; error branches inside parallel builds, read fallbacks and iterators never execute.",
  [DK,LC,MM,MK,SM],
  [("error propagation out of parallel sections","src/store/*.rs process_layer; src/merkle.rs populate_data/populate_data_par"),
   ("error context on reads","store_read_range/store_read_into"),
   ("parallel iteration over a stored source that hits a read error","src/store/mod.rs impl_parallel_iter; src/merkle.rs populate_data_par")],
  observe=["every Result of the public API","root()","read_at()","gen_proof()"])

p("C06","A failed write leaves the store's length and other elements intact",
  "If a write, bulk write or push on a store fails, the store's length is what it was before the call and every element outside the written range still reads back unchanged. Elements inside the range hold a mix of old and new bytes at worst, and retrying after the fault has gone succeeds and reads back correctly.",
  ["fault_sequences","histories"],
  "every write position and size, every failure point inside the write (before, partway, after), including writes beyond the capacity",
  "Tests never make a write fail partway.",
  [DK,LC,MM],
  [("length is advanced only after the bytes were written","write_at/copy_from_slice/push in src/store/disk.rs, level_cache.rs, mmap.rs"),
   ("capacity checks","store_copy_from_slice; push")],
  observe=["len()","read_at()","read_range()"])

p("C07","Persisted trees survive a clean restart unchanged",
  "A tree or store created with a storage configuration and then dropped can be reopened from that configuration with the same root, leaves, nodes and proofs, through every reopening route the library offers. Reopening does not modify the file, and asking to build again over an existing full-size file reloads it or refuses, and never alters it.",
  ["histories","configurations","inputs"],
  "every backend, constructor, arity and size, and every sequence of drop / reopen / rebuild-over-existing / read",
  "Tests reopen a few trees once; they do not check every node, every reopening route, or repeated cycles with other work in between.",
  [MK,DK,LC,MM],
  [("load existing file when present","new_with_config in src/store/disk.rs, level_cache.rs, mmap.rs"),
   ("skip population when loaded from disk","src/merkle.rs try_from_iter_with_config/from_par_iter_with_config; populate_data"),
   ("deterministic file naming","src/store/mod.rs StoreConfig::data_path")],
  observe=["root()","read_at()","gen_proof()","file bytes"])

p("C08","Data acknowledged by a successful sync survives power loss",
  "Once a sync on an on-disk store has returned success, a power failure at any later moment preserves every element that was written before that sync and not overwritten since, and the store still opens with its size. Elements overwritten after the sync hold the old or the new bytes, never something else.",
  ["crash_points","histories","configurations"],
  "every write/sync history on every on-disk backend and every power-failure point, with unsynced pages persisted in any combination",
  "A unit test cannot cut the power: whatever it wrote is visible through the page cache whether or not it was synced.",
  [DK,LC,MM,SM],
  [("sync flushes data and metadata","sync in src/store/disk.rs, level_cache.rs, mmap.rs"),
   ("population syncs leaves","src/merkle.rs populate_data/populate_data_par")],
  observe=["sync()","new_from_disk()","read_at()"])

p("C09","A completed compaction is durable and loses nothing it promised to keep",
  "When compaction returns success, the file has exactly the size of the compacted format and a power failure at any later moment leaves a file that opens and yields the same root, retained rows and (in the format that keeps them) base leaves. A compaction that returns an error before changing anything leaves the tree fully usable.",
  ["crash_points","fault_sequences","configurations"],
  "every arity, size, number of discarded rows and format, and every power-failure point after success; every request that must be refused",
  "Tests compact on a healthy disk and reread through the page cache, so a missing sync is invisible.",
  [DK,MK],
  [("copy, truncate, sync, size check","src/store/disk.rs compact"),
   ("refusal of impossible configurations","src/store/disk.rs compact; src/store/level_cache.rs compact")],
  observe=["compact()","file size","reopened reads and proofs"])

p("C10","Files of the wrong size are refused, and refusal does not touch them",
  "Opening a persisted full tree or its store, or a cache-only partial tree with an external base-data source, fails whenever the file is not exactly the size implied by the tree size and configuration: truncated, extended, empty, torn or compacted with other settings; the consistency queries agree. The refused file is left byte for byte as it was, and a missing file is reported as an error by the open-existing routes.",
  ["inputs","configurations","crash_points","fault_sequences"],
  "every file length around and between the valid ones, every backend, arity, size and number of discarded rows",
  "Tests try one or two wrong sizes and do not look at the file afterwards.",
  [DK,LC,MM,MK],
  [("size sanity checks on open","src/store/disk.rs new_from_disk_with_path; src/store/mmap.rs new_from_disk; src/store/level_cache.rs new_from_disk_with_reader"),
   ("consistency queries","src/store/disk.rs is_consistent; src/store/level_cache.rs is_consistent/is_consistent_v1")],
  observe=["new_from_disk()","is_consistent()","file bytes"])

p("C11","Corrupted storage never yields an accepted proof for wrong data",
  "If stored bytes are altered at rest or while being read, every proof the tree generates either fails to validate, or is rejected, or proves exactly the original leaf under the original root. Altering any single component of an honest proof (item, sibling, root) makes validation fail, and validating with leaf data accepts only the leaf the proof was made for.",
  ["fault_sequences","inputs","configurations"],
  "every position and pattern of corruption in every backend and every format, every leaf index",
  "Tests break one random lemma element of a few proofs; they never corrupt the storage underneath a tree.",
  [PR,MK,DK,LC],
  [("recomputation of the path to the root","src/proof.rs validate/validate_sub_tree_proof/validate_with_data"),
   ("root cached at construction","src/merkle.rs root")],
  observe=["gen_proof()","gen_cached_proof()","validate()","validate_with_data()"])

p("C12","A failing leaf source aborts the build and its first error is returned",
  "When the iterator supplying the leaves yields an error at any position, building returns that first error to the caller instead of a tree or a crash, and no later item is taken. A source that yields a different number of leaves than it announced, or a number or arity that makes no tree, never produces a tree by any constructor, however often the build is repeated, nor does a buffer or store holding another number of nodes than its leaf count calls for or a part of one, and the process and directory stay usable for a later build.",
  ["fault_sequences","inputs","configurations"],
  "every position of the first error, every announced/actual count, every backend, with and without a storage configuration, also across internal batch boundaries",
  "One test checks one failing iterator without a storage configuration.",
  [MK],
  [("short circuit on iterator error","src/merkle.rs populate_data, try_from_iter, try_from_iter_with_config"),
   ("length check before build","src/store/mod.rs build; src/store/disk.rs build; src/store/level_cache.rs build")],
  observe=["try_from_iter()","try_from_iter_with_config()"])

p("C13","External base data is read from exactly the right place or not at all",
  "A partially cached tree whose base data lives elsewhere reads each leaf from precisely its own offset of the external source, also when many trees share one source at different offsets and threads. If the source fails or delivers fewer bytes than asked, the read and any proof depending on it report an error: padding or neighbouring bytes are never returned as leaves. Once a tree is pointed at another source, only that one is read; a refused change of the source changes nothing.",
  ["fault_sequences","configurations","schedules","inputs"],
  "every offset layout, leaf range, and every failing or short answer from the source, for file replicas and custom sources",
  "Tests use healthy files at offset 0 or aligned offsets, and never a source that answers short or fails.",
  [SM,LC,MK],
  [("offset translation","src/store/mod.rs ExternalReader::read/new_from_config"),
   ("reader dispatch","src/store/level_cache.rs store_read_range/store_read_into"),
   ("replica offsets per base tree","src/merkle.rs from_store_configs_and_replica/from_sub_tree_store_configs_and_replica")],
  observe=["read_at()","read_range()","gen_cached_proof()"])

p("C14","Discarded rows are never served as if they were data",
  "On a partially cached tree, a read that touches any discarded node fails: single reads, reads into buffers and range reads either return exactly the node values of the full tree at those positions or an error. Ranges that start in the base data or the cache and run into discarded, missing or differently located rows are no exception, nor are partial-rebuild proofs that would need rows the file no longer has.",
  ["inputs","configurations","histories"],
  "every index and range over every partially cached tree (both formats, every arity, size and number of discarded rows), freshly built or reopened",
  "Tests read leaves and proofs only; no test reads a discarded index or a range crossing a boundary.",
  [LC,MK],
  [("bounds checks for cached stores","src/store/level_cache.rs read_at/read_into/read_range/read_range_into/store_read_range/store_read_into")],
  observe=["read_at()","read_range()","read_into()","read_range_into()","gen_cached_proof()"])

p("C15","Read-only storage stays usable and untouched",
  "A persisted tree whose file can only be opened for reading still opens through the open-existing routes of the file backends and serves every read and proof correctly. Attempts to write, push or compact it fail and leave the file, the reported length and later reads unchanged.",
  ["fault_sequences","configurations","histories"],
  "every backend and format, every interleaving of reads with refused modifications, refusal by permission or read-only file system",
  "The one read-only test checks that opening works; as root it cannot even be denied write permission.",
  [DK,LC],
  [("read-only fallback on open","src/store/disk.rs new_from_disk_with_path; src/store/level_cache.rs new_from_disk/new_from_disk_with_reader")],
  observe=["new_from_disk()","write_at()","compact()","read_at()","file bytes"])

p("C16","Compound trees equal the Merkle tree over their parts' roots",
  "A compound tree assembled from base trees (one or two upper layers, in memory, from slices, from persisted files, or from partially cached files with shared base data) has the root, length, leaf and row counts given by hashing its parts' roots in the order supplied, and addresses leaves in that order. Each of its full or partial-rebuild proofs is exactly the composition of the part's proof with the part roots, carries the leaf as its item and validates. Too few or too many parts, parts of different sizes, or a list of base-data places that does not match the parts, are refused.",
  ["configurations","schedules","histories","inputs"],
  "every shape (one or two upper layers of any arity), assembly route, order of parts, and schedule of building the parts in parallel",
  "Tests cover a few symmetric shapes with identical sub-trees, so swapped parts or wrong offsets give the same root.",
  [MK,PR],
  [("assembly and ordering","src/merkle.rs from_trees/from_sub_trees/from_sub_trees_as_trees/from_store_configs*/from_sub_tree_store_configs*"),
   ("layered proofs","src/merkle.rs gen_sub_tree_proof/gen_cached_top_tree_proof/gen_cached_sub_tree_proof; src/proof.rs validate_sub_tree_proof")],
  observe=["root()","read_at()","gen_proof()","gen_cached_proof()","validate()","validate_with_data()"])

p("C17","Trees sharing a directory are isolated; deletion removes exactly one",
  "Any number of trees built, compacted, reopened and deleted concurrently under different identifiers in one directory never affect each other's files or answers. Deleting a persisted tree removes its own file and nothing else, after which it can be built afresh; deleting something that does not exist is an error for file-backed trees.",
  ["schedules","histories","configurations"],
  "every set of identifiers (including ones that are prefixes of each other), every interleaving of operations on different trees",
  "Tests use one tree per directory and call delete once.",
  [SM,DK,LC,MM],
  [("file naming by identifier","src/store/mod.rs StoreConfig::data_path"),
   ("delete","delete in src/store/disk.rs, level_cache.rs, mmap.rs")],
  observe=["directory listing","delete()","root()"])

p("C18","Every operation finishes: no schedule, fault or panic wedges the library",
  "Under every thread interleaving, with any number of worker threads including one, from inside or outside the worker pool, every build, read, proof and compaction returns within a bounded number of steps. An error or a panicking hash function inside a parallel section surfaces to the caller and leaves the worker pool and other trees usable.",
  ["schedules","fault_sequences","configurations"],
  "every interleaving, worker count, nesting of builds inside the pool, and every position of a failing call or panicking hash",
  "Tests run with the OS schedule on many cores; a lock held across a nested parallel call deadlocks only under rare schedules or a one-thread pool.",
  [SM,DK,LC,MK],
  [("locks around the shared store during parallel layers","src/store/mod.rs process_layer; src/store/disk.rs process_layer; src/store/level_cache.rs process_layer"),
   ("lock around parallel population","src/merkle.rs populate_data_par")],
  observe=["return of every public call"])

p("C19","File handles, mappings and temporary files are all released",
  "After a tree or store is dropped, or its construction fails at any point, the process holds no file descriptor, memory mapping or temporary file that it did not hold before. Repeating build, compact, reopen and drop any number of times does not accumulate resources, on success and on every error path.",
  ["histories","fault_sequences","configurations"],
  "every history of operations and every failure point inside them, every backend",
  "Tests do not count descriptors, mappings or files left behind, least of all after failures.",
  [DK,LC,MM,MK],
  [("owned handles and maps","struct fields in src/store/*.rs"),
   ("anonymous temporary files","new in src/store/disk.rs, level_cache.rs, mmap.rs")],
  observe=["open descriptors","live mappings","directory listings"])

p("C20","An interrupted build or compaction is never mistaken for a finished one",
  "If the process or machine dies, or an error strikes, at any point during a build or a compaction, opening what is left either fails or yields a tree whose every node, leaf and proof is right. In particular a file that opens in the compacted format after an interrupted compaction holds the complete compacted data.",
  ["crash_points","fault_sequences","configurations"],
  "every crash point (process kill or power loss with any subset of unsynced pages persisted) and every failing call during build and compaction, every backend, arity and format",
  "A unit test cannot stop at an arbitrary instruction or lose unsynced pages.",
  [DK,LC,MM,MK],
  [("size check on open as the only completeness marker","new_from_disk in src/store/*.rs"),
   ("order of copy, sync and truncate","src/store/disk.rs compact; src/store/level_cache.rs front_truncate")],
  observe=["new_from_disk()","new_from_disk_with_reader()","is_consistent()","read_at()"])

p("C21","Parallel iteration over a store visits every element once, in order",
  "Iterating a store in parallel yields every element exactly once and at its own position, however the work is split and stolen between worker threads, from either end, by reference or by value. A tree built from another store's parallel iterator equals the tree over those elements, and a read error during such iteration never produces a tree with missing or shifted leaves.",
  ["schedules","fault_sequences","configurations"],
  "every store size, worker count, splitting pattern and interleaving, and every read failure during iteration",
  "Tests feed vectors, not stores, to parallel construction, with sizes that fit one batch.",
  [SM,MK],
  [("producer splitting","src/store/mod.rs impl_parallel_iter"),
   ("parallel population by block index","src/merkle.rs populate_data_par")],
  observe=["par_iter collect/enumerate","from_par_iter()"])

# not applicable: pure functions of their input
p("N01","Tree-size arithmetic is right for every size and arity",
  "The helper functions that compute tree length, cache size, row count, leaf count and proof length agree with the Merkle definition for every supported leaf count and arity, and refuse unsupported ones.",
  ["inputs"],"every leaf count and arity",
  "Tests sample a few values; the function has no schedule, I/O or fault in it, so simulation adds nothing over input enumeration.",
  [MK,SM],[("size helpers","src/merkle.rs get_merkle_tree_len/get_merkle_tree_cache_size/get_merkle_tree_row_count/get_merkle_tree_leafs; src/store/mod.rs default_rows_to_discard")])
p("N02","Hashing adaptors feed every value unambiguously to the hash",
  "Hashing primitive values, strings, slices, tuples and references through the provided adaptors feeds the hash the same bytes for equal values and is deterministic.",
  ["inputs"],"every value of every supported type","Pure function of its input; no nondeterminism or fault to simulate.",
  ["src/hash.rs","src/hash_impl.rs"],[("adaptor implementations","src/hash_impl.rs")])
p("N03","No adversarially assembled proof object is accepted",
  "A proof object assembled by an adversary (arbitrary lemma, path and layer counts) validates only if it is a genuine hash path from its item to its root.",
  ["inputs"],"every proof object","Pure function of an adversarial input; rests on hash collision resistance, not on schedules or faults.",
  [PR],[("validation","src/proof.rs validate")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
