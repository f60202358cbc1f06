//! Shared pieces of the workloads.
use crate::fs::{self, Class, CrashGen, FaultGen, IoPlan};
use crate::model::{self, Model};
use crate::rng::Rng;
use crate::run::{self, panic_msg, Case, RunSpec};
use crate::sched::{Bypass, SchedPlan, Strategy};
use crate::tree::*;
use anyhow::Result;
use merkletree::store::StoreConfig;
use std::path::PathBuf;

pub use crate::check;
pub use crate::run::{op, probe, violation};

// ---- generation --------------------------------------------------------------------------------

pub fn sched_plan(r: &mut Rng) -> SchedPlan {
    let strategy = match r.below(20) {
        0 | 1 => Strategy::Seq,
        2..=4 => Strategy::Rr { q: *r.pick(&[1, 2, 3, 7, 31]) },
        5..=9 => Strategy::Pct { d: r.range(1, 6) as u32, est: *r.pick(&[50, 200, 1000, 5000, 30000]) },
        _ => Strategy::Random { inv: *r.pick(&[1, 2, 4, 10, 40, 200, 1000]) },
    };
    let seed = r.next();
    // in part of the runs the atomic operations of the code are scheduling points too
    SchedPlan { strategy, seed, replay: None, cap: 60_000_000, fine: r.chance(1, 4) }
}
pub fn no_faults(r: &mut Rng) -> IoPlan {
    let mut p = IoPlan { seed: r.next(), ..Default::default() };
    p.gen.spurious_inv = if r.chance(1, 3) { 10 } else { 0 };
    p
}
/// short transfers, interrupted calls, spurious wake-ups: must be invisible
pub fn benign(r: &mut Rng) -> IoPlan {
    let mut p = no_faults(r);
    p.gen.benign = true;
    p.gen.benign_inv = *r.pick(&[1, 2, 3, 8, 30]);
    if p.gen.benign_inv == 1 {
        // every call faulted would never terminate for EINTR-only classes
        p.gen.benign_inv = 2;
    }
    p
}
pub const ALL_IO: &[Class] = &[Class::Open, Class::Read, Class::Write, Class::Trunc, Class::Fsync, Class::Stat, Class::Mmap, Class::Copy];
/// errors that operations may report
pub fn hard(r: &mut Rng, classes: &[Class]) -> IoPlan {
    let mut p = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    p.gen.hard = true;
    // concentrate on one or two classes so that deep operations are reached
    let n = if r.chance(1, 3) { classes.len() } else { r.range(1, 2) };
    for _ in 0..n {
        let c = *r.pick(classes);
        if !p.gen.rates.iter().any(|x| x.0 == c) {
            p.gen.rates.push((c, *r.pick(&[1, 2, 3, 6, 15, 50, 200])));
        }
    }
    p.gen.budget = *r.pick(&[1, 1, 2, 3, 6]);
    p.gen.sticky_pct = *r.pick(&[0, 0, 30]);
    p
}
pub fn crashy(r: &mut Rng, p: &mut IoPlan, max: u32) {
    p.crash = CrashGen { inv: *r.pick(&[1, 3, 10, 40, 150]), max, power_pct: *r.pick(&[100, 70, 50]), writeback_inv: *r.pick(&[0, 2, 10]) };
}
#[allow(dead_code)]
pub fn only(g: &mut FaultGen, c: Class, inv: u32, budget: u32) {
    g.hard = true;
    g.rates = vec![(c, inv)];
    g.budget = budget;
}

/// Exponent so that arity^exp leaves stay within the given bound, biased to small and to thresholds.
pub fn pick_exp(r: &mut Rng, arity: usize, max_leafs: usize) -> u32 {
    let mut m = 1;
    while arity.pow(m + 1) <= max_leafs {
        m += 1;
    }
    let cap = match r.below(10) {
        0..=4 => 64,
        5..=7 => 2048,
        _ => max_leafs,
    };
    let mut k = 1;
    while arity.pow(k + 1) <= cap.min(max_leafs) {
        k += 1;
    }
    if r.chance(1, 3) {
        k
    } else {
        r.range(1, k as usize) as u32
    }
    .min(m)
}
pub fn base_case(r: &mut Rng, wl: &str, stores: &[&str], max_leafs: usize) -> Case {
    let (elem, arity) = *r.pick(COMBOS);
    Case {
        wl: wl.into(),
        store: r.pick(stores).to_string(),
        elem,
        arity,
        exp: pick_exp(r, arity, max_leafs),
        ctor: "new".into(),
        r: 0,
        ver: 1 + r.below(2) as u32,
        dseed: r.next(),
        sub: 0,
        top: 0,
        clients: 1,
        pool: *r.pick(&[1, 2, 2, 3, 4, 6]),
        cfg: r.chance(1, 2),
        knob: vec![],
        ops: vec![],
    }
}
pub fn pick_ctor(r: &mut Rng, c: &mut Case) {
    c.ctor = loop {
        let x = *r.pick(CTORS);
        if c.store == "lc" && (x == "from_tree_slice" || x == "from_data_store") {
            continue;
        }
        break x.to_string();
    };
    if c.store == "lc" {
        c.cfg = true;
    }
}
pub fn pick_r(r: &mut Rng, c: &mut Case) {
    let m = c.exp as usize - 1;
    c.r = match r.below(4) {
        0 => 0,
        1 => m,
        _ => r.below(m + 1),
    };
}
/// rows discarded by default for this shape
pub fn default_r(c: &Case) -> usize {
    StoreConfig::default_rows_to_discard(c.leafs(), c.arity)
}
pub fn spec(prop: &str, seed: u64, case: Case, sched: SchedPlan, io: IoPlan) -> RunSpec {
    RunSpec { prop: prop.into(), seed, case, sched, io }
}

// ---- execution ---------------------------------------------------------------------------------

pub fn dir() -> PathBuf {
    PathBuf::from(fs::fs().data_dir.trim_end_matches('/'))
}
pub fn cfg(id: &str, r: usize) -> StoreConfig {
    cfg_at(&dir(), id, r)
}
/// A configuration, written out or derived from another one of the same directory.
pub fn cfg_at(d: &PathBuf, id: &str, r: usize) -> StoreConfig {
    if (id.len() + r) % 2 == 0 {
        StoreConfig::new(d, id, r)
    } else {
        StoreConfig::from_config(&StoreConfig::new(d, "another", r), id, None)
    }
}
pub fn path_of(id: &str) -> PathBuf {
    StoreConfig::data_path(&dir(), id)
}
pub fn put_file(p: &PathBuf, b: &[u8]) {
    let _g = Bypass::new();
    std::fs::write(p, b).expect("harness: write");
}
pub fn put_file_at(p: &PathBuf, b: &[u8], at: u64) {
    use std::os::unix::fs::FileExt;
    let _g = Bypass::new();
    let f = std::fs::File::create(p).expect("harness: create");
    f.write_all_at(b, at).expect("harness: write");
}
/// Extends the file by a hole (or cuts it).
pub fn set_size(p: &PathBuf, n: u64) {
    let _g = Bypass::new();
    std::fs::OpenOptions::new().write(true).open(p).and_then(|f| f.set_len(n)).expect("harness: set_len");
}
pub fn file_size(p: &PathBuf) -> u64 {
    let _g = Bypass::new();
    std::fs::metadata(p).map_or(0, |m| m.len())
}
pub fn get_file(p: &PathBuf) -> Option<Vec<u8>> {
    let _g = Bypass::new();
    std::fs::read(p).ok()
}
pub fn list_dir(p: &PathBuf) -> Vec<String> {
    let _g = Bypass::new();
    let mut v: Vec<String> = std::fs::read_dir(p).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
pub fn tmp_list() -> Vec<String> {
    list_dir(&PathBuf::from(format!("{}/tmp", fs::fs().root)))
}
/// a fresh directory holding the given files
pub fn image_dir(k: usize, files: &std::collections::BTreeMap<String, Vec<u8>>) -> PathBuf {
    let _g = Bypass::new();
    let d = PathBuf::from(format!("{}/x{}", fs::fs().root, k));
    std::fs::create_dir_all(&d).expect("harness: mkdir");
    for (n, b) in files {
        std::fs::write(d.join(n), b).expect("harness: write");
    }
    d
}

#[derive(Debug, Clone)]
pub enum Fail {
    Err(String),
    Panic(String),
}
pub fn attempt<T, F: FnOnce() -> Result<T>>(f: F) -> std::result::Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Fail::Err(format!("{:#}", e))),
        Err(p) => Err(Fail::Panic(panic_msg(&p))),
    }
}
/// Must succeed: an error or a panic is a violation.
pub fn must<T, F: FnOnce() -> Result<T>>(class: &str, what: &str, f: F) -> T {
    run::checked(1);
    match attempt(f) {
        Ok(x) => x,
        Err(e) => violation(class, &format!("{}: {:?}", what, e)),
    }
}
/// Run one operation with faults enabled. Returns the result and the number of hard faults it met.
pub fn faulty<T, F: FnOnce() -> Result<T>>(n: u32, f: F) -> (std::result::Result<T, Fail>, u32) {
    fs::fs().begin_op(n);
    fs::fs().faults_on = true;
    let r = attempt(f);
    fs::fs().faults_on = false;
    let h = fs::fs().hard_fired_in_op;
    (r, h)
}
pub fn heal() {
    fs::fs().faults_on = false;
    fs::fs().clear_sticky();
}

pub struct World {
    pub c: Case,
    pub items: Vec<u8>,
    pub m: Model,
}
impl World {
    pub fn new(c: &Case) -> World {
        World::seeded(c, c.dseed, &c.ctor)
    }
    pub fn seeded(c: &Case, seed: u64, ctor: &str) -> World {
        let items = model::leaves(seed, c.leafs(), c.elem);
        let m = Model::from_base(expected_base(ctor, &items, c.elem), c.elem, c.arity, height_sensitive(c.elem));
        let mut c = c.clone();
        c.ctor = ctor.into();
        c.dseed = seed;
        World { c, items, m }
    }
    pub fn combo(&self) -> Box<dyn Combo> {
        combo(self.c.elem, self.c.arity, &self.c.store)
    }
    pub fn lc(&self) -> Box<dyn LcCombo> {
        lc(self.c.elem, self.c.arity)
    }
    pub fn input(&self) -> Input<'_> {
        Input { items: &self.items, model: Some(&self.m) }
    }
    pub fn build(&self, cfg: Option<StoreConfig>) -> Result<Tree> {
        self.combo().build(&self.c.ctor, &self.input(), cfg)
    }
    /// bytes of a finished file: full tree, v1 or v2 compacted
    pub fn file(&self, kind: Kind) -> Vec<u8> {
        match kind {
            Kind::Full => self.m.nodes.clone(),
            Kind::V1(r) => {
                let mut v = self.m.range(0, self.m.leafs).to_vec();
                v.extend_from_slice(self.m.cache_bytes(r));
                v
            }
            Kind::V2(r) => self.m.cache_bytes(r).to_vec(),
        }
    }
    pub fn base(&self) -> &[u8] {
        self.m.range(0, self.m.leafs)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Full,
    V1(usize),
    V2(usize),
}
pub fn kind(ver: u32, r: usize) -> Kind {
    if ver == 1 {
        Kind::V1(r)
    } else {
        Kind::V2(r)
    }
}

/// How a proof differs from the prescribed one.
pub fn proof_diff(p: &dyn ProofObj, m: &Model, i: usize) -> Option<String> {
    let (lemma, path) = m.proof(i);
    if p.path() != path {
        return Some(format!("proof of leaf {} has path {:?}, expected {:?}", i, p.path(), path));
    }
    if p.lemma() != lemma {
        return Some(format!("proof of leaf {} has a wrong lemma", i));
    }
    if p.item() != m.at(i) || p.root() != m.root() {
        return Some(format!("proof of leaf {} has a wrong item or root", i));
    }
    match attempt(|| p.validate()) {
        Ok(true) => None,
        x => Some(format!("honest proof of leaf {} does not validate: {:?}", i, x)),
    }
}
/// Check one proof object against the model.
pub fn check_proof(class: &str, what: &str, p: &dyn ProofObj, m: &Model, i: usize) {
    let (lemma, path) = m.proof(i);
    check!(p.path() == path, class, "{}: proof of leaf {} has path {:?}, expected {:?}", what, i, p.path(), path);
    check!(p.lemma() == lemma, class, "{}: proof of leaf {} has a wrong lemma", what, i);
    check!(p.item() == m.at(i), class, "{}: proof item of leaf {} is not the leaf", what, i);
    check!(p.root() == m.root(), class, "{}: proof root of leaf {} is not the root", what, i);
    match attempt(|| p.validate()) {
        Ok(true) => run::checked(1),
        x => violation(class, &format!("{}: honest proof of leaf {} does not validate: {:?}", what, i, x)),
    }
}
pub fn sample(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    if n <= k {
        return (0..n).collect();
    }
    let mut v = vec![0, n - 1, n / 2, n / 2 - 1];
    while v.len() < k {
        v.push(r.below(n));
    }
    v.truncate(k.max(2));
    v.sort();
    v.dedup();
    v
}

pub struct Depth {
    pub nodes: usize,
    pub proofs: usize,
}
/// A full tree must answer exactly like the model.
pub fn verify_full(class: &str, what: &str, t: &dyn DynTree, w: &World, r: &mut Rng, d: Depth) {
    let m = &w.m;
    check!(t.root() == m.root(), class, "{}: wrong root", what);
    check!(t.leafs() == m.leafs, class, "{}: leafs {} expected {}", what, t.leafs(), m.leafs);
    check!(t.len() == m.len(), class, "{}: len {} expected {}", what, t.len(), m.len());
    check!(t.row_count() == m.row_count(), class, "{}: row_count {} expected {}", what, t.row_count(), m.row_count());
    if let Some(l) = t.store_len() {
        check!(l == m.len(), class, "{}: store len {} expected {}", what, l, m.len());
    }
    // every node, in blocks
    let mut a = 0;
    while a < m.len() {
        let b = (a + 8192).min(m.len());
        let got = must(class, &format!("{}: read_range {}..{}", what, a, b), || t.read_range(a, b));
        if got != m.range(a, b) {
            let k = (a..b).find(|k| got.get((k - a) * m.n..(k - a + 1) * m.n) != Some(m.at(*k))).unwrap_or(a);
            violation(class, &format!("{}: node {} of {} is wrong (row starts {:?})", what, k, m.len(), m.rows));
        }
        run::checked((b - a) as u64);
        a = b;
    }
    for i in sample(r, m.len(), d.nodes) {
        let got = must(class, &format!("{}: read_at {}", what, i), || t.read_at(i));
        check!(got == m.at(i), class, "{}: read_at {} wrong", what, i);
        let mut buf = vec![0xAA; m.n];
        must(class, &format!("{}: read_into {}", what, i), || t.read_into(i, &mut buf));
        check!(buf == m.at(i), class, "{}: read_into {} wrong", what, i);
    }
    let has_rri = w.c.store == "disk" || w.c.store == "lc";
    if has_rri {
        for _ in 0..2 {
            let a = r.below(m.len());
            let b = (a + 1 + r.below((m.len() - a).min(300))).min(m.len());
            let mut buf = vec![0x55; (b - a) * m.n];
            must(class, &format!("{}: read_range_into {}..{}", what, a, b), || t.read_range_into(a, b, &mut buf));
            check!(buf == m.range(a, b), class, "{}: read_range_into {}..{} wrong", what, a, b);
        }
    }
    for i in sample(r, m.leafs, d.proofs) {
        let p = must(class, &format!("{}: gen_proof {}", what, i), || t.proof(i));
        check_proof(class, what, &*p, m, i);
        if w.c.ctor == "from_data" {
            let it = &w.items[i * m.n..(i + 1) * m.n];
            let ok = must(class, "validate_with_data", || p.validate_with_data(it));
            check!(ok, class, "{}: proof of leaf {} rejected with its own data", what, i);
        }
    }
    if w.c.store == "disk" {
        for i in sample(r, m.leafs, (d.proofs / 2).max(1)) {
            let x = r.below(m.max_discard() + 2);
            let p = must(class, &format!("{}: gen_cached_proof {} {}", what, i, x), || t.cached_proof(i, if x > m.max_discard() { None } else { Some(x) }));
            check_proof(class, &format!("{} cached({})", what, x), &*p, m, i);
        }
    }
    // out of range is an error, never data
    let e = attempt(|| t.read_at(m.len()));
    check!(e.is_err(), class, "{}: read past the end succeeded", what);
    let e = attempt(|| t.proof(m.leafs));
    check!(e.is_err(), class, "{}: proof past the last leaf succeeded", what);
}
/// A partially cached tree (r rows discarded) must answer like the model wherever it answers.
/// `base`: base data is reachable.
pub fn verify_cached(class: &str, what: &str, t: &dyn DynTree, w: &World, rr: usize, r: &mut Rng, d: Depth) {
    let m = &w.m;
    let cs = m.cache_start(rr);
    check!(t.root() == m.root(), class, "{}: wrong root", what);
    check!(t.leafs() == m.leafs && t.len() == m.len() && t.row_count() == m.row_count(), class, "{}: wrong shape {}/{}/{}", what, t.leafs(), t.len(), t.row_count());
    for (lo, hi) in [(0, m.leafs), (cs, m.len())] {
        let mut a = lo;
        while a < hi {
            let b = (a + 4096).min(hi);
            let got = must(class, &format!("{}: read_range {}..{}", what, a, b), || t.read_range(a, b));
            check!(got == m.range(a, b), class, "{}: range {}..{} wrong", what, a, b);
            run::checked((b - a) as u64);
            a = b;
        }
        for j in sample(r, hi - lo, d.nodes) {
            let i = lo + j;
            let got = must(class, &format!("{}: read_at {}", what, i), || t.read_at(i));
            check!(got == m.at(i), class, "{}: read_at {} wrong", what, i);
            let mut buf = vec![0xAA; m.n];
            must(class, &format!("{}: read_into {}", what, i), || t.read_into(i, &mut buf));
            check!(buf == m.at(i), class, "{}: read_into {} wrong", what, i);
            let b = i + 1 + r.below((hi - i).min(64));
            let b = b.min(hi);
            let mut buf = vec![0x55; (b - i) * m.n];
            must(class, &format!("{}: read_range_into {}..{}", what, i, b), || t.read_range_into(i, b, &mut buf));
            check!(buf == m.range(i, b), class, "{}: read_range_into {}..{} wrong", what, i, b);
        }
    }
    let def = StoreConfig::default_rows_to_discard(m.leafs, m.arity);
    for i in sample(r, m.leafs, d.proofs) {
        for x in [None, Some(rr), Some(r.below(m.max_discard() + 1))] {
            let eff = x.map_or(def, |x| x.min(def));
            let p = attempt(|| t.cached_proof(i, x));
            if eff >= rr {
                match p {
                    Ok(p) => check_proof(class, &format!("{} cached proof {:?}", what, x), &*p, m, i),
                    Err(e) => violation(class, &format!("{}: cached proof of leaf {} with {:?} (file discards {}) failed: {:?}", what, i, x, rr, e)),
                }
            } else if let Ok(p) = p {
                check_proof(class, &format!("{} cached proof {:?} beyond the file", what, x), &*p, m, i);
            } else {
                probe("cached-proof-beyond-file-refused");
            }
        }
        if rr == 0 {
            let p = must(class, &format!("{}: full proof {} with all rows present", what, i), || t.proof(i));
            check_proof(class, what, &*p, m, i);
        } else if let Ok(p) = attempt(|| t.proof(i)) {
            check_proof(class, &format!("{} full proof of cached tree", what), &*p, m, i);
        }
    }
}
pub fn rng_of(c: &Case, salt: u64) -> Rng {
    Rng::new(c.dseed ^ salt.wrapping_mul(0x9E3779B97F4A7C15))
}
/// Run closures on concurrent client threads, wait for all; panics are re-raised as violations.
pub fn clients<'a>(class: &str, fs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let r = std::thread::scope(|s| {
        let hs: Vec<_> = fs.into_iter().map(|f| s.spawn(f)).collect();
        let mut bad = None;
        for h in hs {
            if let Err(p) = h.join() {
                bad = Some(panic_msg(&p));
            }
        }
        bad
    });
    if let Some(m) = r {
        violation(class, &format!("client thread panicked: {}", m));
    }
}
/// Call f from the main thread or from inside the worker pool.
pub fn placed<T: Send, F: FnOnce() -> T + Send>(inside: bool, f: F) -> T {
    if inside {
        let mut out = None;
        rayon::scope(|_| {
            out = Some(f());
        });
        out.unwrap()
    } else {
        f()
    }
}


// ---- persisted forms ---------------------------------------------------------------------------

/// Every way a finished tree can lie on disk and be opened again.
pub const FORMS: &[&str] = &["disk", "disk-path", "disk-config", "mmap", "mmap-config", "lc-v1", "lc-v1-config", "lc-v2", "lc-v2-set", "lc-v2-source"];
pub fn form_store(form: &str) -> &'static str {
    if form.starts_with("disk") {
        "disk"
    } else if form.starts_with("mmap") {
        "mmap"
    } else {
        "lc"
    }
}
pub fn form_kind(form: &str, r: usize) -> Kind {
    match form {
        "lc-v1" | "lc-v1-config" => Kind::V1(r),
        "lc-v2" | "lc-v2-set" | "lc-v2-source" => Kind::V2(r),
        _ => Kind::Full,
    }
}
pub fn form_offset(w: &World, form: &str) -> usize {
    match form {
        "lc-v2" | "lc-v2-set" => (w.c.dseed % 4) as usize * 19,
        "lc-v2-source" => (w.c.dseed % 3) as usize * 11,
        _ => 0,
    }
}
/// put the finished files in place
pub fn place_form(w: &World, form: &str, d: &PathBuf, id: &str) {
    put_file(&StoreConfig::data_path(d, id), &w.file(form_kind(form, w.c.r)));
    place_base(w, form, d, id);
}
/// put only the external base data in place
pub fn place_base(w: &World, form: &str, d: &PathBuf, id: &str) {
    let off = form_offset(w, form);
    let mut b = vec![0xEE; off];
    b.extend_from_slice(w.base());
    match form {
        "lc-v2" | "lc-v2-set" => {
            b.extend_from_slice(&[0xDD; 45]);
            put_file(&d.join(format!("base-{}", id)), &b)
        }
        "lc-v2-source" => crate::source::set(b),
        _ => {}
    }
}
pub fn open_form(w: &World, form: &str, d: &PathBuf, id: &str) -> Result<Tree> {
    let (leafs, len) = (w.m.leafs, w.m.len());
    let cf = cfg_at(d, id, w.c.r);
    let base = d.join(format!("base-{}", id));
    let off = form_offset(w, form);
    let cb = combo(w.c.elem, w.c.arity, form_store(form));
    match form {
        "disk" | "mmap" | "lc-v1" => cb.open(leafs, len, &cf),
        "disk-config" | "mmap-config" | "lc-v1-config" => cb.open_or_create(leafs, len, &cf),
        "disk-path" => w.lc().disk_open_path(leafs, len, &StoreConfig::data_path(d, id)),
        "lc-v2" => w.lc().open_with_reader(leafs, len, &cf, &base, off),
        "lc-v2-set" => w.lc().open_then_set(leafs, len, &cf, &base, off),
        "lc-v2-source" => w.lc().open_with_source(leafs, len, &cf, off),
        x => panic!("harness: no form {}", x),
    }
}
pub fn verify_form(class: &str, what: &str, t: &dyn DynTree, w: &World, form: &str, r: &mut Rng, d: Depth) {
    if form_store(form) == "lc" {
        verify_cached(class, what, t, w, w.c.r, r, d)
    } else {
        let mut w2 = World { c: w.c.clone(), items: w.items.clone(), m: w.m.clone() };
        w2.c.store = form_store(form).into();
        w2.c.ctor = "opened".into();
        verify_full(class, what, t, &w2, r, d)
    }
}
/// restrict to forms and rows for which every read route is defined
pub fn pick_form(r: &mut Rng, c: &mut Case, forms: &[&str]) -> String {
    let f = r.pick(forms).to_string();
    c.store = form_store(&f).into();
    if c.store == "lc" {
        c.cfg = true;
        c.r = if r.chance(1, 4) { default_r(c) } else { r.below(default_r(c) + 1) };
    }
    f
}
