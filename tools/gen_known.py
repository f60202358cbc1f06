#!/usr/bin/env python3
"""Writes known_findings.json (committed; never touched by a check)."""
import json
F=[
 ("C20-unfinished-build-opens-as-full","C20","history: a process is killed, loses power or meets an I/O error while MerkleTree builds into a DiskStore or MmapStore with a configuration; the file was given its full size at creation, so DiskStore/MmapStore::new_from_disk, new_with_config and a rebuild over the same id accept it although nodes not yet written are zero"),
 ("C20-half-compacted-file-opens-as-full","C20","history: DiskStore::compact is interrupted (kill, power loss or I/O error) after rows have been copied over the front of the file and before it is truncated; the still full-size file opens as a full tree whose overwritten nodes are the moved cache rows"),
 ("C20-unfinished-cached-build-opens","C20","history: building directly into a LevelCacheStore is interrupted (kill, power loss or I/O error); while rows above the first retained one are still unwritten (zero) the file already has the cache-only size and opens with an external reader, and with no discarded rows the earlier full-size file has the size of a version 1 file and opens as one"),
]
X=[
 ("C08","e76c755","MmapStore::sync wrote nothing to disk, so acknowledged data was lost on power failure"),
 ("C17","6d1f02b","MmapStore::delete left the backing file in place"),
 ("C05","b3c5641","MmapStore::new_from_disk panicked when the file could not be opened"),
 ("C07","36666ef","an MmapStore loaded from an existing file reported itself as new, so building over it overwrote the persisted tree"),
 ("C14","f7d4116","LevelCacheStore served unrelated bytes for reads that touch discarded rows"),
 ("C13","e7d734d","a short read from an external base-data reader was padded and returned as leaves"),
 ("C14","6268572","a cache-only file opened without a reader served cached rows as base leaves"),
 ("C10","b824784","LevelCacheStore::new_from_disk accepted files of any size"),
 ("C12","827a1a9","try_from_iter_with_config and from_par_iter panicked instead of returning the error of the source or the disk"),
 ("C21","618117f","a parallel leaf source that lost items (read error) produced a tree with missing leaves"),
 ("C01","60cd16b","proof validation used other heights than the build, so honest proofs failed under a height-sensitive hash"),
 ("C16","de5f65b","Proof::item of a compound proof returned a part root instead of the leaf"),
 ("C20","4dfe0b3","power loss around the truncation in DiskStore::compact left a file of the compacted size without the compacted data"),
 ("C21","036a62b","store iterators had no size hint, so step_by over a store (and anything else relying on ExactSizeIterator) panicked"),
 ("C20","f68afb0","power loss around the truncation of a directly built LevelCacheStore left a cache-size file without the cached rows"),
 ("C12","c6fed0a","an arity of 0 or 1 made the leaf constructors loop forever"),
 ("C12","13fe9fc","a leaf count that is no power of the arity was refused only after a full-size file had been created, and repeating the call over that file returned a bogus tree"),
 ("C04","d4714e7","a LevelCacheStore created without a configuration (new, new_from_slice) could not read back anything written to it"),
 ("C16","061016b","from_sub_tree_store_configs and its replica variant silently ignored store configs left over after dividing them among the sub-trees"),
("C12","a5e732e","VecStore::new_from_slice silently dropped trailing bytes that are no whole element, so from_tree_slice and a store handed to from_data_store accepted them"),
("C10","5a034f1","from_store_configs and from_sub_tree_store_configs created a missing file at full size before refusing it, and took its zeros for a finished tree on the next call"),
]
json.dump({"findings":[{"id":a,"property":b,"what":c} for a,b,c in F],"fixed":["fixed: property=%s %s %s"%x for x in X]},open('known_findings.json','w'),indent=1)
open('known_findings.json','a').write('\n')
