#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, main.rs, ...) from the edits in mutants.py."""
import os, sys, json, subprocess, shutil, tempfile
here=os.path.dirname(os.path.abspath(__file__)); verif=os.path.dirname(here)
sys.path.insert(0,here)
import mutants
MUT={m["id"]:m for m in mutants.M}
S=[]
HEAD="""mod common;
use common::*;
use merkletree::merkle::*;
use merkletree::store::*;
use typenum::*;
#[allow(unused_imports)]
use rayon::prelude::*;
"""
def s(id, mut, needs, breaks, main, shim=None, head=HEAD):
    S.append((id,mut,needs,breaks,head+main,shim))

s("c01-rows-appended-in-arrival-order","c01-append-arrival",
 "A VecStore or MmapStore build of more than 4096 leaves (several chunks per row), and worker threads that finish chunks of one row out of order.",
 "Chunks of a hashed row are appended at the current end of the store instead of at their own position, so the rows and the root depend on the thread schedule.",
r'''
use std::hash::Hasher;
#[derive(Default, Clone)]
struct Slow(Alg);
impl Hasher for Slow {
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn finish(&self) -> u64 { unimplemented!() }
}
impl merkletree::hash::Algorithm<E> for Slow {
    fn hash(&mut self) -> E { self.0.hash() }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        // the first chunk of the first row takes longer than the others
        if height == 0 && nodes[0] == leaf(&item(1, 0)) { std::thread::sleep(std::time::Duration::from_millis(400)); }
        node(nodes, height)
    }
}
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let v = items(1, 16384);
    let want = tree(&hashed(&v), 2);
    for _ in 0..3 {
        let t = MerkleTree::<E, Slow, VecStore<E>, U2>::new(v.clone()).unwrap();
        if t.root() != *want.last().unwrap() { fail("VecStore root differs from the definition"); }
        for i in (0..want.len()).step_by(97) { if t.read_at(i).unwrap() != want[i] { fail("node differs"); } }
        let t = MerkleTree::<E, Slow, MmapStore<E>, U2>::new(v.clone()).unwrap();
        if t.root() != *want.last().unwrap() { fail("MmapStore root differs from the definition"); }
    }
}
''')

s("c01-leaf-blocks-appended-in-arrival-order","c01-par-block-append",
 "Parallel construction from more than 262144 leaves (several leaf blocks) with the first block finishing after a later one.",
 "Blocks of leaves are appended in the order in which worker threads finish them, so leaves land at the wrong indices.",
r'''
use std::hash::Hasher;
use std::sync::atomic::*;
static PAUSED: AtomicBool = AtomicBool::new(false);
#[derive(Default, Clone)]
struct Slow(Alg);
impl Hasher for Slow {
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn finish(&self) -> u64 { unimplemented!() }
}
impl merkletree::hash::Algorithm<E> for Slow {
    fn hash(&mut self) -> E { self.0.hash() }
    fn leaf(&mut self, x: E) -> E {
        if x[0] == 0 && x[1] == 0 && !PAUSED.swap(true, Ordering::SeqCst) {
            std::thread::sleep(std::time::Duration::from_secs(8));
        }
        x
    }
    fn multi_node(&mut self, nodes: &[E], _h: usize) -> E {
        let mut o = nodes[0];
        for (a, b) in o.iter_mut().zip(nodes[1].iter()) { *a = a.wrapping_mul(31).wrapping_add(*b); }
        o
    }
}
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().unwrap();
    let n = 1 << 19;
    let v: Vec<E> = (0..n).map(|i| { let mut e = [1u8; 32]; e[0] = (i == 0) as u8 ^ 1; e[1] = e[0]; e[8..16].copy_from_slice(&(i as u64).to_le_bytes()); e }).collect();
    let t = MerkleTree::<E, Slow, VecStore<E>, U2>::from_par_iter(v.clone()).unwrap();
    for i in (0..n).step_by(1001) {
        if t.read_at(i).unwrap() != v[i] { fail("a leaf is not at its own index"); }
    }
}
''', head=HEAD)

s("c02-shared-file-cursor","c02-disk-seek",
 "Two or more threads reading one DiskStore-backed tree at the same time, one of them between seek and read.",
 "Reads move the file's shared cursor, so concurrent readers get each other's elements.",
r'''
fn main() {
    let v = items(2, 4096);
    let want = tree(&hashed(&v), 2);
    let t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new(v).unwrap();
    let (t, want) = (&t, &want);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let b = &bad;
    std::thread::scope(|s| {
        for k in 0..8usize {
            s.spawn(move || {
                let end = std::time::Instant::now() + std::time::Duration::from_secs(8);
                let mut i = k * 131;
                while std::time::Instant::now() < end && b.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                    i = (i * 7 + 13) % want.len();
                    if t.read_at(i).map(|e| e != want[i]).unwrap_or(true) {
                        b.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
            });
        }
    });
    if bad.load(std::sync::atomic::Ordering::Relaxed) > 0 { fail("a concurrent reader got another element or an error"); }
}
''')

SHORT_WRITE=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/types.h>
// Legal but rare: every write to a descriptor above 2 transfers at most 1000 bytes.
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd > 2 && n > 1000) n = 1000;
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (fd > 2 && n > 1000) n = 1000;
    return real(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pread64");
    if (fd > 2 && n > 1000) n = 1000;
    return real(fd, b, n, o);
}
'''
s("c03-short-writes-while-compacting","c03-compact-shortwrite",
 "Compaction of a DiskStore during which the kernel accepts fewer bytes than offered in one write.",
 "The rest of the block is skipped, so retained rows of the compacted tree are shifted and proofs differ from the full tree's.",
r'''
fn main() {
    let d = dir();
    let n = 4096;
    let v = items(3, n);
    let want = tree(&hashed(&v), 2);
    let cfg = StoreConfig::new(&d, "x", 3);
    let full = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v.clone(), cfg.clone()).unwrap();
    let proofs: Vec<_> = (0..n).step_by(57).map(|i| (i, full.gen_proof(i).unwrap())).collect();
    drop(full);
    std::fs::write(d.join("base"), bytes(&hashed(&v))).unwrap();
    let mut s = DiskStore::<E>::new_from_disk(want.len(), 2, &cfg).unwrap();
    if s.compact(2, cfg.clone(), 2).is_err() { return; } // reporting failure is allowed
    drop(s);
    let s = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(want.len(), 2, &cfg, ExternalReader::new_from_path(&d.join("base")).unwrap()).unwrap();
    let t = MerkleTree::<E, Alg, LevelCacheStore<E, std::fs::File>, U2>::from_data_store(s, n).unwrap();
    if t.root() != *want.last().unwrap() { fail("the root changed"); }
    for (i, p) in proofs {
        let q = t.gen_cached_proof(i, Some(3)).unwrap();
        if q != p { fail("a proof differs from the full tree's"); }
    }
}
''',shim=SHORT_WRITE)

s("c04-single-read","c04-lc-read-once",
 "A read from a cached tree's file that the kernel answers with fewer bytes than asked.",
 "LevelCacheStore reads once and returns zero padding for the missing bytes.",
r'''
fn main() {
    let d = dir();
    let n = 1024;
    let v = items(4, n);
    let want = tree(&hashed(&v), 2);
    let cfg = StoreConfig::new(&d, "x", 2);
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap());
    let mut s = DiskStore::<E>::new_from_disk(want.len(), 2, &cfg).unwrap();
    s.compact(2, cfg.clone(), 1).unwrap();
    drop(s);
    let s = LevelCacheStore::<E, std::fs::File>::new_from_disk(want.len(), 2, &cfg).unwrap();
    match s.read_range(0..n) {
        Ok(got) => if got != want[..n] { fail("a range read under short transfers returned other elements"); },
        Err(e) => fail(&format!("a short transfer became an error: {}", e)),
    }
}
''',shim=SHORT_WRITE)

EIO_READ=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
// The program arms a countdown; the pread that brings it to zero fails with EIO.
int demo_fail_read_in = 0;
void demo_arm(int n) { demo_fail_read_in = n; }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pread64");
    if (demo_fail_read_in > 0 && __sync_sub_and_fetch(&demo_fail_read_in, 1) == 0) { errno = EIO; return -1; }
    return real(fd, b, n, o);
}
'''
ARM=r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
fn arm(n: i32) {
    unsafe {
        let p = dlsym(std::ptr::null_mut(), b"demo_arm\0".as_ptr());
        assert!(!p.is_null(), "shim not loaded");
        let f: extern "C" fn(i32) = std::mem::transmute(p);
        f(n)
    }
}
'''
s("c05-unreadable-chunk-hashed-as-zeros","c05-lc-swallow",
 "A read error (EIO) on one chunk while a LevelCacheStore tree is being built.",
 "The failed chunk is replaced by default elements and the build succeeds with a wrong root.",
ARM+r'''
fn main() {
    let d = dir();
    let v = items(5, 2048);
    let want = tree(&hashed(&v), 2);
    for k in 1..6 {
        let cfg = StoreConfig::new(&d, format!("x{}", k), 1);
        arm(k);
        let r = MerkleTree::<E, Alg, LevelCacheStore<E, std::fs::File>, U2>::new_with_config(v.clone(), cfg);
        arm(0);
        if let Ok(t) = r {
            if t.root() != *want.last().unwrap() { fail("a build that hit a read error succeeded with a wrong root"); }
        }
    }
}
''',shim=EIO_READ)

s("c05-end-of-file-read-as-zeros","c05-eof-zero",
 "A tree file that became shorter than it was when the store was opened.",
 "Reads past the end of the file return zero bytes as elements instead of an error.",
r'''
fn main() {
    let d = dir();
    let v = items(5, 256);
    let want = tree(&hashed(&v), 2);
    let cfg = StoreConfig::new(&d, "x", 0);
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap());
    let s = DiskStore::<E>::new_from_disk(want.len(), 2, &cfg).unwrap();
    let f = std::fs::OpenOptions::new().write(true).open(StoreConfig::data_path(&cfg.path, &cfg.id)).unwrap();
    f.set_len(100 * 32).unwrap();
    for i in 0..want.len() {
        if let Ok(e) = s.read_at(i) { if e != want[i] { fail("a read of lost data returned made-up bytes"); } }
    }
}
''')

s("c06-length-before-bulk-write","c06-lc-copy-len-first",
 "A bulk write to a LevelCacheStore that fails (here: beyond the capacity).",
 "The length has already been advanced when the write fails.",
r'''
fn main() {
    let mut s = LevelCacheStore::<E, std::fs::File>::new(16).unwrap();
    for i in 0..4 { s.push(item(6, i)).unwrap(); }
    let r = s.copy_from_slice(&bytes(&items(7, 8)), 12);
    if r.is_ok() { fail("a write beyond the capacity succeeded"); }
    if Store::len(&s) != 4 { fail("a failed write changed the length"); }
}
''')

s("c06-partial-write-cut-off","c06-clear-on-fail",
 "A write in the middle of a DiskStore that fails with an I/O error.",
 "Everything behind the failed write is thrown away (reads back as zeros) although it was not part of the write.",
r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
fn arm(n: i32) {
    unsafe {
        let p = dlsym(std::ptr::null_mut(), b"demo_arm\0".as_ptr());
        assert!(!p.is_null(), "shim not loaded");
        let f: extern "C" fn(i32) = std::mem::transmute(p);
        f(n)
    }
}
fn main() {
    let mut s = DiskStore::<E>::new(64).unwrap();
    let v = items(6, 32);
    s.copy_from_slice(&bytes(&v), 0).unwrap();
    arm(1);
    let r = s.write_at(item(7, 0), 5);
    arm(0);
    if r.is_ok() { fail("a failed write reported success"); }
    if Store::len(&s) != 32 { fail("length changed"); }
    for i in 0..32 { if i != 5 && s.read_at(i).unwrap() != v[i] { fail("a failed write changed another element"); } }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <sys/types.h>
int demo_fail = 0;
void demo_arm(int n) { demo_fail = n; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (demo_fail > 0) { errno = EIO; return -1; }
    return real(fd, b, n, o);
}
''')

s("c07-slice-overwrites-persisted-tree","c07-slice-overwrite",
 "Creating a tree from a whole-tree slice under an identifier whose full-size file already exists with other content.",
 "The persisted tree is silently overwritten instead of being reloaded or the request refused.",
r'''
fn main() {
    let d = dir();
    let (a, b) = (tree(&hashed(&items(8, 64)), 2), tree(&hashed(&items(9, 64)), 2));
    let cfg = StoreConfig::new(&d, "x", 0);
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::from_tree_slice_with_config(&bytes(&a), 64, cfg.clone()).unwrap());
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    let before = std::fs::read(&p).unwrap();
    let _ = MerkleTree::<E, Alg, DiskStore<E>, U2>::from_tree_slice_with_config(&bytes(&b), 64, cfg);
    if std::fs::read(&p).unwrap() != before { fail("building over an existing tree altered it"); }
}
''')

SYNCLOG=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
// Tracks whether anything was changed since the last successful sync of any file.
static int dirty = 0;
int demo_dirty(void) { return dirty; }
#define REAL(r, name, args) static r (*real) args; if (!real) real = dlsym(RTLD_NEXT, name)
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", (int, const void *, size_t, off64_t)); dirty = 1; return real(fd, b, n, o); }
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", (int, off64_t)); dirty = 1; return real(fd, l); }
int fsync(int fd) { REAL(int, "fsync", (int)); int r = real(fd); if (r == 0) dirty = 0; return r; }
int fdatasync(int fd) { REAL(int, "fdatasync", (int)); int r = real(fd); if (r == 0) dirty = 0; return r; }
int msync(void *a, size_t l, int f) { REAL(int, "msync", (void *, size_t, int)); int r = real(a, l, f); return r; }
'''
DIRTY=r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
fn dirty() -> bool {
    unsafe {
        let p = dlsym(std::ptr::null_mut(), b"demo_dirty\0".as_ptr());
        assert!(!p.is_null(), "shim not loaded");
        let f: extern "C" fn() -> i32 = std::mem::transmute(p);
        f() != 0
    }
}
'''
s("c08-sync-skipped-when-clean","c08-dirty",
 "Single-element writes (write_at or push) followed by a sync and a power failure; bulk writes set the flag, single ones do not.",
 "sync returns success without writing anything to disk, so acknowledged elements are lost.",
DIRTY+r'''
fn main() {
    let cfg = StoreConfig::new(&dir(), "x", 0);
    let mut s = DiskStore::<E>::new_with_config(64, 2, cfg).unwrap();
    s.copy_from_slice(&bytes(&items(1, 4)), 0).unwrap();
    s.sync().unwrap();
    s.push(item(1, 9)).unwrap();
    s.write_at(item(1, 10), 1).unwrap();
    s.sync().unwrap();
    if dirty() { fail("sync reported success with nothing written to disk"); }
}
''',shim=SYNCLOG)

s("c08-sync-error-swallowed","c08-lc-noerr",
 "A sync of a LevelCacheStore during which the device reports an error, followed by a power failure.",
 "sync reports success although the data never reached the disk.",
r'''
fn main() {
    let cfg = StoreConfig::new(&dir(), "x", 1);
    let mut s = LevelCacheStore::<E, std::fs::File>::new_with_config(127, 2, cfg).unwrap();
    s.copy_from_slice(&bytes(&items(1, 4)), 0).unwrap();
    std::env::set_var("DEMO_FSYNC_FAILS", "1");
    if s.sync().is_ok() { fail("sync succeeded although the disk refused it"); }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
int fsync(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "fsync");
    if (getenv("DEMO_FSYNC_FAILS")) { errno = EIO; return -1; }
    return real(fd);
}
int fdatasync(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "fdatasync");
    if (getenv("DEMO_FSYNC_FAILS")) { errno = EIO; return -1; }
    return real(fd);
}
''')

s("c09-truncation-not-synced","c09-no-final-sync",
 "A power failure after a successful compaction, before the kernel wrote the new file size back by itself.",
 "The truncation is not durable when compact returns, so after the power failure the file has its old size and opens as a full tree with wrong nodes (or is refused).",
DIRTY+r'''
fn main() {
    let d = dir();
    for version in [1u32, 2] {
        let cfg = StoreConfig::new(&d, format!("x{}", version), 2);
        let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(1, 64), cfg.clone()).unwrap();
        t.compact(cfg, version).unwrap();
        if dirty() { fail("compact returned success before its result was on disk"); }
    }
}
''',shim=SYNCLOG)

s("c10-size-compared-in-elements","c10-disk-div",
 "A tree file with a few stray bytes at its end (less than one element).",
 "The size check rounds down to whole elements, so a torn or extended file is accepted as a full tree.",
r'''
fn main() {
    let cfg = StoreConfig::new(&dir(), "x", 0);
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(1, 64), cfg.clone()).unwrap());
    let p = StoreConfig::data_path(&cfg.path, &cfg.id);
    for extra in [1usize, 31] {
        let mut b = std::fs::read(&p).unwrap();
        b.truncate(127 * 32);
        b.extend(std::iter::repeat(0u8).take(extra));
        std::fs::write(&p, &b).unwrap();
        if DiskStore::<E>::new_from_disk(127, 2, &cfg).is_ok() { fail("a file of the wrong size was accepted"); }
    }
}
''')

s("c10-reader-open-accepts-longer-file","c10-lcr-ge",
 "Opening a cache-only tree with an external reader when the file is longer than its configuration says (compacted with fewer discarded rows, or still full-size).",
 "The longer file is accepted and its nodes are served at the wrong positions.",
r'''
fn main() {
    let d = dir();
    let v = items(1, 256);
    std::fs::write(d.join("base"), bytes(&hashed(&v))).unwrap();
    let cfg = StoreConfig::new(&d, "x", 1);
    let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap();
    t.compact(cfg.clone(), 2).unwrap();
    drop(t);
    let other = StoreConfig::new(&d, "x", 3);
    let r = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(511, 2, &other, ExternalReader::new_from_path(&d.join("base")).unwrap());
    if r.is_ok() { fail("a file compacted with other settings was accepted"); }
}
''')

s("c11-last-part-not-checked","c11-topskip",
 "A compound tree with two upper layers, a leaf in its last part, and a top-layer sibling or root that was altered.",
 "Validation of such proofs skips the topmost layer and accepts a wrong root.",
r'''
fn main() {
    let parts: Vec<MerkleTree<E, Alg, VecStore<E>, U2>> = (0..4).map(|k| MerkleTree::new(items(k, 8)).unwrap()).collect();
    let t = MerkleTree::<E, Alg, VecStore<E>, U2, U2, U2>::from_sub_trees_as_trees(parts).unwrap();
    for i in 0..32 {
        let p = t.gen_proof(i).unwrap();
        if !p.validate::<Alg>().unwrap() { fail("an honest proof was refused"); }
        for k in 0..p.lemma().len() {
            let mut q = p.clone();
            q.lemma_mut()[k][3] ^= 1;
            if q.validate::<Alg>().unwrap_or(false) { fail("an altered proof was accepted"); }
        }
    }
}
''')

s("c12-error-lost-at-block-boundary","c12-skip-err",
 "A leaf source with more than 262144 items whose first error is the first item after a full block.",
 "The error is skipped instead of ending the build; later items are taken and the caller sees another error.",
r'''
fn main() {
    let n = 1usize << 19;
    let at = 1usize << 18;
    let taken = std::cell::Cell::new(0usize);
    struct Src<'a> { i: usize, n: usize, at: usize, taken: &'a std::cell::Cell<usize> }
    impl<'a> Iterator for Src<'a> {
        type Item = anyhow::Result<E>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.i == self.n { return None; }
            self.i += 1;
            self.taken.set(self.i);
            if self.i - 1 == self.at { return Some(Err(anyhow::anyhow!("source broke"))); }
            Some(Ok([self.i as u8; 32]))
        }
        fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
    }
    let r = MerkleTree::<E, Alg, VecStore<E>, U2>::try_from_iter(Src { i: 0, n, at, taken: &taken });
    match r {
        Ok(_) => fail("a tree was built from a failing source"),
        Err(e) => if !format!("{:?}", e).contains("source broke") { fail("the source's error was lost"); },
    }
    if taken.get() > at + 1 { fail("items were taken after the first error"); }
}
''')

s("c13-offset-rounded-to-page","c13-offset0",
 "Base data of several trees in one replica file at offsets that are not multiples of 4096.",
 "The offset is rounded down, so leaves are read from a neighbouring place.",
r'''
fn main() {
    let d = dir();
    let n = 64;
    let off = 7 * 32 + 5000 / 32 * 32;
    let v = items(1, n);
    let want = tree(&hashed(&v), 2);
    let mut rep = vec![0xAAu8; off];
    rep.extend(bytes(&hashed(&v)));
    std::fs::write(d.join("rep"), &rep).unwrap();
    let cfg = StoreConfig::new(&d, "x", 2);
    let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap();
    t.compact(cfg.clone(), 2).unwrap();
    drop(t);
    let rc = ReplicaConfig::new(d.join("rep"), vec![off]);
    let s = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(127, 2, &cfg, ExternalReader::new_from_config(&rc, 0).unwrap()).unwrap();
    for i in 0..n { if s.read_at(i).unwrap() != want[i] { fail("a leaf was read from the wrong place of the replica"); } }
}
''')

s("c13-replica-short-read-padded","c13-short",
 "A replica file that ends inside (or before) the base data of a tree.",
 "The replica reader pads the missing bytes and reports a full read, so made-up bytes are returned as leaves.",
r'''
fn main() {
    let d = dir();
    let n = 64;
    let v = items(1, n);
    let want = tree(&hashed(&v), 2);
    let mut rep = bytes(&hashed(&v));
    rep.truncate(40 * 32 + 9);
    std::fs::write(d.join("rep"), &rep).unwrap();
    let cfg = StoreConfig::new(&d, "x", 2);
    let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap();
    t.compact(cfg.clone(), 2).unwrap();
    drop(t);
    let s = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(127, 2, &cfg, ExternalReader::new_from_path(&d.join("rep")).unwrap()).unwrap();
    for i in 0..n { if let Ok(e) = s.read_at(i) { if e != want[i] { fail("made-up bytes were returned as a leaf"); } } }
}
''')

s("c15-read-only-file-system","c15-lc-perm-only-rdr",
 "A cache-only tree on a file system that is mounted read-only (EROFS) rather than a file without write permission.",
 "Only 'permission denied' leads to the read-only fallback; on a read-only file system the tree cannot be opened.",
r'''
fn main() {
    let d = dir();
    let v = items(1, 64);
    std::fs::write(d.join("base"), bytes(&hashed(&v))).unwrap();
    let cfg = StoreConfig::new(&d, "x", 2);
    let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v.clone(), cfg.clone()).unwrap();
    t.compact(cfg.clone(), 2).unwrap();
    drop(t);
    std::env::set_var("DEMO_EROFS", "1");
    match LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(127, 2, &cfg, ExternalReader::new_from_path(&d.join("base")).unwrap()) {
        Ok(s) => if s.read_at(5).unwrap() != leaf(&v[5]) { fail("wrong leaf"); },
        Err(e) => fail(&format!("a tree on a read-only file system does not open: {}", e)),
    }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
int open64(const char *p, int flags, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    if (getenv("DEMO_EROFS") && (flags & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
    return real(p, flags, mode);
}
''')

s("c15-refused-compaction-changes-length","c15-compact-len",
 "Compacting a tree whose file can only be read.",
 "The compaction fails, but the store already reports the compacted length, so later reads and proofs fail.",
r'''
fn main() {
    let d = dir();
    let v = items(1, 64);
    let want = tree(&hashed(&v), 2);
    let cfg = StoreConfig::new(&d, "x", 2);
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap());
    let mut s = DiskStore::<E>::new_from_disk(127, 2, &cfg).unwrap();
    std::env::set_var("DEMO_EROFS", "1");
    if s.compact(2, cfg, 2).is_ok() { fail("compacting read-only storage succeeded"); }
    if Store::len(&s) != 127 { fail("the refused compaction changed the length"); }
    for i in 0..127 { if s.read_at(i).ok() != Some(want[i]) { fail("a read after the refused compaction is wrong"); } }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
int open64(const char *p, int flags, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = dlsym(RTLD_NEXT, "open64");
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    if (getenv("DEMO_EROFS") && (flags & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
    return real(p, flags, mode);
}
''')

s("c16-groups-reversed","c16-group-chunks",
 "A two-layer compound tree assembled from a flat list of different base trees.",
 "Base trees inside each group are taken in reverse order, so leaves are addressed in another order than supplied and the root differs.",
r'''
fn main() {
    let parts: Vec<MerkleTree<E, Alg, VecStore<E>, U2>> = (0..4).map(|k| MerkleTree::new(items(k, 8)).unwrap()).collect();
    let t = MerkleTree::<E, Alg, VecStore<E>, U2, U2, U2>::from_sub_trees_as_trees(parts).unwrap();
    for i in 0..32 {
        if t.read_at(i).unwrap() != leaf(&item(i as u64 / 8, i % 8)) { fail("leaves are not in the order supplied"); }
    }
}
''')

s("c17-identifier-extension","c17-ext",
 "Two identifiers in one directory that differ only behind their last dot (tree.0, tree.1).",
 "Both map to the same file, so the second tree silently reloads the first and deleting one removes the other.",
r'''
fn main() {
    let d = dir();
    let a = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(1, 64), StoreConfig::new(&d, "tree.0", 0)).unwrap();
    let b = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(2, 64), StoreConfig::new(&d, "tree.1", 0)).unwrap();
    if a.root() == b.root() { fail("two trees share one file"); }
}
''')

s("c17-shared-temporary-name","c17-compact-tmp",
 "Two trees in one directory compacted at the same time, one of them between writing and reading back the temporary file.",
 "Both use the same temporary file, so one tree ends up with the other's rows or fails.",
r'''
fn main() {
    let d = dir();
    for round in 0..40u64 {
        let want: Vec<_> = (0..8u64).map(|k| {
            let cfg = StoreConfig::new(&d, format!("x{}-{}", round, k), 1);
            let t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(round * 8 + k, 256), cfg.clone()).unwrap();
            (t.root(), cfg)
        }).collect();
        std::thread::scope(|s| for (root, cfg) in &want { s.spawn(move || {
            let mut st = DiskStore::<E>::new_from_disk(511, 2, cfg).unwrap();
            if st.compact(2, cfg.clone(), 1).is_err() { fail("a compaction failed because of another tree's"); }
            let l = LevelCacheStore::<E, std::fs::File>::new_from_disk(511, 2, cfg).unwrap();
            if l.read_at(510).unwrap() != *root { fail("a tree has another tree's rows"); }
        }); });
    }
}
''')

s("c18-lock-across-parallel-rows","c18-global-lock",
 "Several on-disk builds running inside the worker pool at the same time (builds nested in a parallel iterator).",
 "A process-wide lock is held while a row is hashed in parallel; a worker that holds it picks up another build while waiting and blocks on its own lock for ever.",
r'''
fn main() {
    rayon::ThreadPoolBuilder::new().num_threads(3).build_global().unwrap();
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(40));
        fail("nested builds did not finish in 40 s");
    });
    let end = std::time::Instant::now() + std::time::Duration::from_secs(15);
    while std::time::Instant::now() < end {
        (0..6u64).into_par_iter().for_each(|k| {
            let v = items(k, 16384);
            let t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new(v).unwrap();
            assert_eq!(t.len(), 32767);
        });
    }
}
''')

s("c19-temporary-file-left-behind","c19-keep-onfail",
 "Creating a temporary MmapStore when the mapping fails (out of memory or too many mappings).",
 "The named temporary file is not removed on that path.",
r'''
fn main() {
    let tmp = std::env::temp_dir();
    std::env::set_var("DEMO_MMAP_FAILS", "1");
    let r = MmapStore::<E>::new(64);
    std::env::remove_var("DEMO_MMAP_FAILS");
    if r.is_ok() { println!("mapping did not fail"); }
    drop(r);
    let left: Vec<_> = std::fs::read_dir(&tmp).unwrap().map(|e| e.unwrap().path()).collect();
    if !left.is_empty() { fail(&format!("left behind: {:?}", left)); }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/mman.h>
void *mmap64(void *a, size_t l, int p, int f, int fd, off64_t o) {
    static void *(*real)(void *, size_t, int, int, int, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "mmap64");
    if (fd >= 0 && getenv("DEMO_MMAP_FAILS")) { errno = ENOMEM; return MAP_FAILED; }
    return real(a, l, p, f, fd, o);
}
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    static void *(*real)(void *, size_t, int, int, int, off_t);
    if (!real) real = dlsym(RTLD_NEXT, "mmap");
    if (fd >= 0 && getenv("DEMO_MMAP_FAILS")) { errno = ENOMEM; return MAP_FAILED; }
    return real(a, l, p, f, fd, o);
}
''')

s("c20-truncated-before-copy","c20-trunc-first",
 "The process dies (or the write fails) during a compaction after the file was cut to its final size and before the rows were written.",
 "The interrupted file has exactly the compacted size and opens as a finished compaction with wrong rows.",
r'''
fn main() {
    let d = dir();
    let cfg = StoreConfig::new(&d, "x", 2);
    let v = items(1, 256);
    let want = tree(&hashed(&v), 2);
    if std::env::args().nth(2).is_some() {
        let mut s = DiskStore::<E>::new_from_disk(511, 2, &cfg).unwrap();
        std::env::set_var("DEMO_WRITE_FAILS", "1");
        let _ = s.compact(2, cfg.clone(), 2);
        return;
    }
    std::fs::write(d.join("base"), bytes(&hashed(&v))).unwrap();
    drop(MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(v, cfg.clone()).unwrap());
    std::process::Command::new(std::env::current_exe().unwrap()).arg(&d).arg("child").status().unwrap();
    if let Ok(s) = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(511, 2, &cfg, ExternalReader::new_from_path(&d.join("base")).unwrap()) {
        if s.read_at(510).ok() != Some(want[510]) { fail("an interrupted compaction opens as a finished one"); }
    }
}
''',shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/types.h>
static int bad(void) { return getenv("DEMO_WRITE_FAILS") != 0; }
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd > 2 && bad()) { errno = EIO; return -1; }
    return real(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
    if (bad()) { errno = EIO; return -1; }
    return real(a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
    if (bad()) { errno = EIO; return -1; }
    return real(a, b, o, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    static ssize_t (*real)(int, const void *, size_t, off64_t);
    if (!real) real = dlsym(RTLD_NEXT, "pwrite64");
    if (bad()) { errno = EIO; return -1; }
    return real(fd, b, n, o);
}
''')

s("c21-backward-iteration-drops-last","c21-back",
 "Iterating a store from its back end (rev) in parallel.",
 "The last remaining element of every split is dropped.",
r'''
fn main() {
    let v = items(1, 100);
    let s = VecStore::<E>::new_from_slice(100, &bytes(&v)).unwrap();
    let got: Vec<E> = (&s).into_par_iter().rev().collect();
    let mut want = v.clone();
    want.reverse();
    if got != want { fail("reverse iteration does not visit every element once"); }
}
''')

s("c21-read-error-skips-element","c21-err-skip",
 "A read error (EIO) while a tree is being built from another on-disk store's parallel iterator, at an element that is not the last.",
 "The unreadable element is skipped and the following ones move up by one place.",
ARM+r'''
fn main() {
    let v = items(1, 256);
    let s = DiskStore::<E>::new_from_slice(256, &bytes(&v)).unwrap();
    arm(5);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (&s).into_par_iter().with_min_len(256).map(|x| x).filter(|_| true).collect::<Vec<E>>()));
    arm(0);
    if let Ok(got) = got {
        // elements may be missing at the end of a split, but the ones delivered must be a prefix
        for (i, e) in got.iter().enumerate() { if *e != v[i] { fail("an element was skipped and the rest shifted"); } }
    }
}
''',shim=EIO_READ)

s("c14-fast-path-past-the-base","c14-base-fast-path",
 "A tree compacted in the first format, and a read into a buffer of a single node whose row was discarded.",
 "A short cut for nodes before the cached rows reads straight from the file; for the first discarded nodes it delivers the cached rows that moved there.",
r'''
fn main() {
    let cfg = StoreConfig::new(&dir(), "x", 3);
    let mut t = MerkleTree::<E, Alg, DiskStore<E>, U2>::new_with_config(items(1, 64), cfg.clone()).unwrap();
    let full: Vec<E> = t.read_range(0, 127).unwrap();
    assert!(t.compact(cfg.clone(), StoreConfigDataVersion::One as u32).unwrap());
    drop(t);
    let s = LevelCacheStore::<E, std::fs::File>::new_from_disk(127, 2, &cfg).unwrap();
    for i in 0..127 {
        let mut b = [0u8; 32];
        if s.read_into(i, &mut b).is_ok() && b != full[i] { fail("a discarded node was served"); }
    }
}
''')

sel=sys.argv[1:]
def make(id,mut,needs,breaks,main,shim):
    d=f"{verif}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    m=MUT[mut]
    w=tempfile.mkdtemp(prefix="mtseed.")
    subprocess.run(f"git -C /repo worktree list >/dev/null; git clone -q /repo {w}/r",shell=True,check=True)
    sys.argv=["mutate"]
    for e in m["edits"]:
        f,old,new=e[0],e[1],e[2]; nth=e[3] if len(e)>3 else None
        p=f"{w}/r/{f}"; t=open(p).read(); c=t.count(old)
        if nth=="all": t=t.replace(old,new)
        elif nth is None:
            assert c==1,(id,f,c); t=t.replace(old,new)
        else:
            parts=t.split(old); t=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
        open(p,"w").write(t)
    subprocess.run("RUSTUP_TOOLCHAIN=1.71.1 rustfmt --edition 2018 --check src/lib.rs >/dev/null 2>&1; true",shell=True,cwd=f"{w}/r")
    diff=subprocess.run("git diff",shell=True,cwd=f"{w}/r",stdout=subprocess.PIPE,text=True,check=True).stdout
    assert diff
    open(f"{d}/patch.diff","w").write(diff)
    shutil.rmtree(w)
    for f in ("demo.sh","common.rs","Cargo.lock"): shutil.copy(f"{here}/demo/{f}",d)
    open(f"{d}/main.rs","w").write(main)
    if shim: open(f"{d}/shim.c","w").write(shim.lstrip())
    json.dump({"property":m["prop"],"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
for x in S:
    if not sel or any(x[0].startswith(k) for k in sel): make(*x)
print(len(S))
