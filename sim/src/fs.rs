//! Simulated storage: tracks files, injects faults, models durability and crash images.
//!
//! File contents live in real files under a scratch directory on tmpfs (they play the page cache);
//! everything else (which calls fail, what survives power loss) is decided here.
use crate::raw;
use crate::rng::Rng;
use crate::sched::{self, Bypass};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Class {
    Open,
    Read,
    Write,
    Trunc,
    Fsync,
    Stat,
    Mmap,
    Unlink,
    Copy,
    /// custom external base-data source
    Source,
    /// leaf iterator
    Iter,
    /// hash function
    Hash,
    Futex,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Errno(i32),
    /// transfer only this many permille of the bytes (at least one, at most len-1)
    Short(u32),
    Eintr,
    /// transfer a prefix, then fail the next call with errno
    Torn(i32, u32),
    /// transfer a prefix, then report the end of the file
    TornEof(u32),
    /// flip this bit (modulo the length) of the data returned
    Flip(u32),
    Panic,
    Spurious,
    /// the file ends here although its size says otherwise
    Eof,
}
impl Kind {
    pub fn name(&self, c: Class) -> String {
        let k = match self {
            Kind::Errno(e) => match *e {
                libc::EIO => "EIO".into(),
                libc::ENOSPC => "ENOSPC".into(),
                libc::EMFILE => "EMFILE".into(),
                libc::EACCES => "EACCES".into(),
                libc::EROFS => "EROFS".into(),
                libc::ENOMEM => "ENOMEM".into(),
                libc::EXDEV => "EXDEV".into(),
                libc::ENOSYS => "ENOSYS".into(),
                libc::EDQUOT => "EDQUOT".into(),
                libc::ENFILE => "ENFILE".into(),
                e => format!("E{}", e),
            },
            Kind::Short(_) => "short".into(),
            Kind::Eintr => "EINTR".into(),
            Kind::Torn(..) => "torn".into(),
            Kind::TornEof(_) => "early-eof".into(),
            Kind::Flip(_) => "bitflip".into(),
            Kind::Panic => "panic".into(),
            Kind::Eof => "eof".into(),
            Kind::Spurious => "spurious-wakeup".to_string(),
        };
        format!("{:?}:{}", c, k).to_lowercase()
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub op: u32,
    pub class: Class,
    pub nth: u32,
    pub kind: Kind,
    pub sticky: bool,
}

/// What may be injected, and how often.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FaultGen {
    /// (class, inverse rate)
    pub rates: Vec<(Class, u32)>,
    pub benign: bool,
    pub hard: bool,
    pub flip: bool,
    pub panic: bool,
    pub budget: u32,
    /// benign faults do not consume the budget
    pub benign_inv: u32,
    pub sticky_pct: u32,
    pub spurious_inv: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct CrashGen {
    /// inverse probability of taking a snapshot at each crash point
    pub inv: u32,
    pub max: u32,
    pub power_pct: u32,
    /// inverse probability of background writeback at each mutation
    pub writeback_inv: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CrashAt {
    pub at: u64,
    pub power: bool,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct IoPlan {
    pub seed: u64,
    pub gen: FaultGen,
    /// explicit faults (replay); when set, `gen` is not consulted
    pub list: Option<Vec<Fault>>,
    pub crash: CrashGen,
    pub crash_list: Option<Vec<CrashAt>>,
}

struct Fd {
    ino: u64,
    path: String,
}
#[derive(Clone, Default)]
struct FileRec {
    durable: Vec<u8>,
    synced: bool,
    sizes: Vec<u64>,
}
#[derive(Clone)]
enum NsOp {
    Create(String, u64),
    Unlink(String),
    Rename(String, String),
}
#[derive(Clone)]
pub struct Snapshot {
    pub tag: u64,
    pub power: bool,
    pub at: u64,
    pub files: BTreeMap<String, Vec<u8>>,
}

pub struct Fs {
    pub root: String,
    plan: IoPlan,
    rng: Rng,
    fds: BTreeMap<i32, Fd>,
    maps: BTreeMap<usize, (usize, u64, i64)>,
    pub op: u32,
    counters: BTreeMap<(u32, Class), u32>,
    pub fired: Vec<Fault>,
    pub counts: BTreeMap<String, u64>,
    pub calls: BTreeMap<Class, u64>,
    sticky: Vec<(Class, Kind)>,
    armed: Vec<(Class, Kind)>,
    pub faults_on: bool,
    budget: u32,
    pub hard_fired_in_op: u32,
    ro: Vec<(String, i32)>,
    // crash model
    pub crash_on: bool,
    crash_points: u64,
    crash_rng: Rng,
    wb_rng: Rng,
    pub crashes: Vec<CrashAt>,
    pub snaps: Vec<Snapshot>,
    pub tag: u64,
    recs: BTreeMap<u64, FileRec>,
    journal: Vec<NsOp>,
    durable_upto: usize,
    often_snaps: u32,
    futex_n: u32,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub data_dir: String,
    pub writebacks: u64,
    copied: std::collections::BTreeSet<i32>,
    dropped: std::collections::BTreeSet<(u32, u64)>,
}

static mut FS: *mut Fs = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { &mut *FS }
}

pub fn init(root: &str, plan: IoPlan, tracing: bool) {
    let f = Fs {
        root: root.to_string(),
        rng: Rng::new(plan.seed ^ 0xfa17),
        crash_rng: Rng::new(plan.seed ^ 0xc4a54),
        wb_rng: Rng::new(plan.seed ^ 0x3b3b),
        budget: plan.gen.budget,
        plan,
        fds: BTreeMap::new(),
        maps: BTreeMap::new(),
        op: 0,
        counters: BTreeMap::new(),
        fired: vec![],
        counts: BTreeMap::new(),
        calls: BTreeMap::new(),
        sticky: vec![],
        armed: vec![],
        faults_on: false,
        hard_fired_in_op: 0,
        ro: vec![],
        crash_on: false,
        crash_points: 0,
        crashes: vec![],
        snaps: vec![],
        tag: 0,
        recs: BTreeMap::new(),
        journal: vec![],
        durable_upto: 0,
        often_snaps: 0,
        futex_n: 0,
        trace: vec![],
        tracing,
        data_dir: format!("{}/d/", root),
        writebacks: 0,
        copied: Default::default(),
        dropped: Default::default(),
    };
    unsafe { FS = Box::into_raw(Box::new(f)) }
}

impl Fs {
    pub fn tracked(&self, p: &str) -> bool {
        p.starts_with(&self.root)
    }
    fn rel(&self, p: &str) -> String {
        p.strip_prefix(&self.root).unwrap_or(p).to_string()
    }
    fn log(&mut self, what: &str, path: &str, a: i64, b: i64, r: i64) {
        let mut h = crate::rng::hash_bytes(a as u64 ^ (b as u64).rotate_left(17), what.as_bytes());
        h ^= (r as u64).rotate_left(40);
        sched::log_event(h);
        if self.tracing && self.trace.len() < 4000 {
            let p = self.rel(path);
            let s = format!("p{} t{} op{} {}({}, {}, {}) = {}", sched::sim().points, sched::cur(), self.op, what, p, a, b, r);
            self.trace.push(s);
        }
    }
    pub fn note(&mut self, s: &str) {
        if self.tracing && self.trace.len() < 4000 {
            let t = format!("p{} t{} op{} -- {}", sched::sim().points, sched::cur(), self.op, s);
            self.trace.push(t);
        }
    }
    fn hard_kind(&mut self, c: Class) -> Option<Kind> {
        let r = &mut self.rng;
        Some(match c {
            Class::Open => Kind::Errno(*r.pick(&[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENFILE])),
            Class::Read => {
                if r.chance(1, 4) {
                    Kind::Eof
                } else {
                    Kind::Errno(libc::EIO)
                }
            }
            Class::Write => {
                let e = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]);
                if r.chance(1, 3) {
                    Kind::Torn(e, r.below(1000) as u32)
                } else {
                    Kind::Errno(e)
                }
            }
            Class::Trunc => Kind::Errno(*r.pick(&[libc::EIO, libc::ENOSPC])),
            Class::Fsync => Kind::Errno(*r.pick(&[libc::EIO, libc::ENOSPC])),
            Class::Stat => Kind::Errno(*r.pick(&[libc::EIO, libc::EACCES])),
            Class::Mmap => Kind::Errno(*r.pick(&[libc::ENOMEM, libc::EAGAIN])),
            Class::Unlink => Kind::Errno(*r.pick(&[libc::EIO, libc::EACCES])),
            Class::Copy => {
                let e = *r.pick(&[libc::ENOSPC, libc::EIO]);
                match r.below(5) {
                    0 | 1 => Kind::Torn(e, r.below(1000) as u32),
                    2 | 3 => Kind::Errno(e),
                    _ => Kind::TornEof(r.below(1000) as u32),
                }
            }
            Class::Source => {
                if r.chance(1, 2) {
                    Kind::Errno(libc::EIO)
                } else {
                    Kind::Short(r.below(1000) as u32)
                }
            }
            Class::Iter => Kind::Errno(libc::EIO),
            Class::Hash => Kind::Panic,
            Class::Futex => return None,
        })
    }
    fn benign_kind(&mut self, c: Class) -> Option<Kind> {
        let r = &mut self.rng;
        Some(match c {
            Class::Read | Class::Write => {
                if r.chance(1, 3) {
                    Kind::Eintr
                } else {
                    Kind::Short(r.below(1000) as u32)
                }
            }
            Class::Trunc | Class::Fsync | Class::Open => Kind::Eintr,
            Class::Copy => match r.below(3) {
                0 => Kind::Errno(libc::EXDEV),
                1 => Kind::Errno(libc::ENOSYS),
                _ => Kind::Short(r.below(1000) as u32),
            },
            _ => return None,
        })
    }
    /// Decide whether the call at hand is faulted.
    pub fn decide(&mut self, c: Class) -> Option<Kind> {
        *self.calls.entry(c).or_insert(0) += 1;
        if let Some(i) = self.armed.iter().position(|a| a.0 == c) {
            let k = self.armed.remove(i).1;
            return Some(k);
        }
        if !self.faults_on {
            return None;
        }
        let ctr = self.counters.entry((self.op, c)).or_insert(0);
        let nth = *ctr;
        *ctr += 1;
        if let Some(s) = self.sticky.iter().find(|s| s.0 == c) {
            let k = s.1;
            *self.counts.entry(format!("{}(persisting)", k.name(c))).or_insert(0) += 1;
            self.hard_fired_in_op += 1;
            return Some(k);
        }
        let op = self.op;
        let (kind, sticky) = if let Some(l) = &self.plan.list {
            let f = l.iter().find(|f| f.op == op && f.class == c && f.nth == nth)?;
            (f.kind, f.sticky)
        } else {
            let g = self.plan.gen.clone();
            let mut pick = None;
            if g.benign && g.benign_inv > 0 && self.rng.below(g.benign_inv as usize) == 0 {
                pick = self.benign_kind(c).map(|k| (k, false));
            }
            if pick.is_none() && self.budget > 0 {
                let rate = g.rates.iter().find(|r| r.0 == c)?.1;
                if rate == 0 || self.rng.below(rate as usize) != 0 {
                    return None;
                }
                if g.flip && c == Class::Read {
                    pick = Some((Kind::Flip(self.rng.next() as u32), false));
                } else if g.hard || (g.panic && c == Class::Hash) {
                    let k = self.hard_kind(c)?;
                    let st = self.rng.below(100) < g.sticky_pct as usize && !matches!(k, Kind::Torn(..) | Kind::TornEof(_) | Kind::Panic);
                    pick = Some((k, st));
                }
                if pick.is_some() {
                    self.budget -= 1;
                }
            }
            pick?
        };
        self.fire(Fault { op, class: c, nth, kind, sticky });
        Some(kind)
    }
    fn fire(&mut self, f: Fault) {
        *self.counts.entry(f.kind.name(f.class)).or_insert(0) += 1;
        if !is_benign(f.class, f.kind) {
            self.hard_fired_in_op += 1;
        }
        if f.sticky {
            self.sticky.push((f.class, f.kind));
        }
        if self.tracing {
            let s = format!("FAULT {:?}", f);
            self.note(&s);
        }
        self.fired.push(f);
    }
    pub fn clear_sticky(&mut self) {
        self.sticky.clear();
        self.armed.clear();
    }
    fn arm(&mut self, c: Class, k: Kind) {
        self.armed.push((c, k));
    }

    // ---- crash model ----
    fn dur(&self) -> bool {
        self.crash_on
    }
    fn file_size(&self, path: &str) -> Option<u64> {
        let _b = Bypass::new();
        std::fs::metadata(path).ok().map(|m| m.len())
    }
    fn after_mutation(&mut self, ino: u64, path: &str) {
        if !self.dur() {
            return;
        }
        if let Some(sz) = self.file_size(path) {
            if let Some(r) = self.recs.get_mut(&ino) {
                if r.sizes.last() != Some(&sz) {
                    r.sizes.push(sz);
                }
            }
        }
        let wb = self.plan.crash.writeback_inv;
        if wb > 0 && self.wb_rng.below(wb as usize) == 0 {
            self.writeback(ino, path);
        }
        self.crash_point_often();
    }
    fn writeback(&mut self, ino: u64, path: &str) {
        let _b = Bypass::new();
        let cur = match std::fs::read(path) {
            Ok(c) => c,
            Err(_) => return,
        };
        self.writebacks += 1;
        let mut rng = Rng::new(self.wb_rng.next());
        if let Some(r) = self.recs.get_mut(&ino) {
            let n = (cur.len() + 4095) / 4096;
            for pg in 0..n {
                if rng.chance(1, 2) {
                    let (a, b) = (pg * 4096, ((pg + 1) * 4096).min(cur.len()));
                    if r.durable.len() < b {
                        r.durable.resize(b, 0);
                    }
                    r.durable[a..b].copy_from_slice(&cur[a..b]);
                }
            }
        }
    }
    /// A failed sync drops what it could not write: another sync in the same operation that succeeds
    /// has not saved it. (A later operation is assumed to find the pages dirty again.)
    fn sync_failed(&mut self, ino: u64) {
        let op = self.op;
        self.dropped.retain(|d| d.0 == op);
        self.dropped.insert((op, ino));
    }
    fn on_sync(&mut self, ino: u64, path: &str) {
        if !self.dur() || self.dropped.contains(&(self.op, ino)) {
            return;
        }
        let _b = Bypass::new();
        if let Ok(c) = std::fs::read(path) {
            if let Some(r) = self.recs.get_mut(&ino) {
                r.sizes = vec![c.len() as u64];
                r.durable = c;
                r.synced = true;
            }
        }
        // name-space changes are journalled in order, and a sync commits the journal
        self.durable_upto = self.journal.len();
    }
    fn on_sync_range(&mut self, ino: u64, path: &str, a: usize, b: usize) {
        if !self.dur() || self.dropped.contains(&(self.op, ino)) {
            return;
        }
        let _b = Bypass::new();
        if let Ok(c) = std::fs::read(path) {
            if let Some(r) = self.recs.get_mut(&ino) {
                r.sizes = vec![c.len() as u64];
                let (a, b) = (a / 4096 * 4096, ((b + 4095) / 4096 * 4096).min(c.len()));
                r.durable.resize(c.len(), 0);
                if a < b {
                    r.durable[a..b].copy_from_slice(&c[a..b]);
                }
                self.durable_upto = self.journal.len();
            }
        }
    }
    /// A place where the machine may die.
    /// A crash may happen here: next to a rare operation (sync, truncation, creation, rename, removal).
    pub fn crash_point(&mut self) {
        self.crash_here(false)
    }
    /// The same next to an operation of which there are many (write, copy, hash): these share half of the
    /// crashes of a run, so that a large tree does not use them all up before it comes to its syncs.
    pub fn crash_point_often(&mut self) {
        self.crash_here(true)
    }
    fn crash_here(&mut self, often: bool) {
        if !self.crash_on {
            return;
        }
        let at = self.crash_points;
        self.crash_points += 1;
        let c = if let Some(l) = &self.plan.crash_list {
            match l.iter().find(|c| c.at == at) {
                Some(c) => c.clone(),
                None => return,
            }
        } else {
            let g = &self.plan.crash;
            let inv = if often { g.inv } else { g.inv.min(4) };
            let full = if often { self.often_snaps >= (g.max + 1) / 2 } else { false };
            if inv == 0 || full || self.snaps.len() >= g.max as usize || self.crash_rng.below(inv as usize) != 0 {
                return;
            }
            self.often_snaps += often as u32;
            let p = g.power_pct as usize;
            CrashAt { at, power: self.crash_rng.below(100) < p, seed: self.crash_rng.next() }
        };
        self.take_snapshot(c);
    }
    /// A crash the workload asks for at this very instant (for example after an acknowledged sync).
    pub fn crash_now(&mut self, power: bool) {
        let at = self.crash_points;
        self.crash_points += 1;
        if let Some(l) = &self.plan.crash_list {
            if let Some(c) = l.iter().find(|c| c.at == at) {
                let c = c.clone();
                self.take_snapshot(c);
            }
            return;
        }
        let seed = self.crash_rng.next();
        self.take_snapshot(CrashAt { at, power, seed });
    }
    fn take_snapshot(&mut self, c: CrashAt) {
        let _b = Bypass::new();
        let dir = self.data_dir.clone();
        let mut cur: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                if let Ok(b) = std::fs::read(e.path()) {
                    cur.insert(e.file_name().to_string_lossy().to_string(), b);
                }
            }
        }
        let files = if c.power { self.power_image(&cur, c.seed) } else { cur };
        *self.counts.entry(if c.power { "crash:power-loss".into() } else { "crash:kill".into() }).or_insert(0) += 1;
        if self.tracing {
            let l: Vec<String> = files.iter().map(|(k, v)| format!("{}:{}", k, v.len())).collect();
            self.note(&format!("CRASH {:?} tag={} image {:?}", c, self.tag, l));
        }
        sched::log_event(c.at ^ 0xc4a5);
        self.snaps.push(Snapshot { tag: self.tag, power: c.power, at: c.at, files });
        self.crashes.push(c);
    }
    fn power_image(&self, cur: &BTreeMap<String, Vec<u8>>, seed: u64) -> BTreeMap<String, Vec<u8>> {
        let mut rng = Rng::new(seed);
        let k = match rng.below(3) {
            0 => self.durable_upto,
            1 => self.journal.len(),
            _ => rng.range(self.durable_upto, self.journal.len()),
        };
        let mut ns: BTreeMap<String, u64> = BTreeMap::new();
        for op in &self.journal[..k] {
            match op {
                NsOp::Create(n, i) => {
                    ns.insert(n.clone(), *i);
                }
                NsOp::Unlink(n) => {
                    ns.remove(n);
                }
                NsOp::Rename(a, b) => {
                    if let Some(i) = ns.remove(a) {
                        ns.insert(b.clone(), i);
                    }
                }
            }
        }
        // current name of each inode, to find current contents
        let mut now: BTreeMap<u64, String> = BTreeMap::new();
        for op in &self.journal {
            match op {
                NsOp::Create(n, i) => {
                    now.insert(*i, n.clone());
                }
                NsOp::Rename(a, b) => {
                    for v in now.values_mut() {
                        if v == a {
                            *v = b.clone();
                        }
                    }
                }
                NsOp::Unlink(_) => {}
            }
        }
        let mut out = BTreeMap::new();
        for (name, ino) in ns {
            let empty = vec![];
            let c = now.get(&ino).and_then(|n| cur.get(n)).unwrap_or(&empty);
            let r = self.recs.get(&ino).cloned().unwrap_or_default();
            let mut sizes = r.sizes.clone();
            if sizes.is_empty() {
                sizes.push(0);
            }
            let size = match rng.below(3) {
                0 => sizes[0],
                1 => *sizes.last().unwrap(),
                _ => *rng.pick(&sizes),
            } as usize;
            let unit = *rng.pick(&[4096usize, 4096, 512]);
            let q = *rng.pick(&[0u32, 10, 50, 50, 90, 100]);
            let mut img = vec![0u8; size];
            let mut a = 0;
            while a < size {
                let b = (a + unit).min(size);
                let take_cur = (rng.below(100) as u32) < q && a < c.len();
                let src: &Vec<u8> = if take_cur { c } else { &r.durable };
                if a < src.len() {
                    let e = b.min(src.len());
                    img[a..e].copy_from_slice(&src[a..e]);
                }
                a = b;
            }
            out.insert(name, img);
        }
        out
    }
    /// Forget everything volatile and start tracking the current directory contents as durable.
    pub fn start_crash_tracking(&mut self) {
        let _b = Bypass::new();
        self.recs.clear();
        self.journal.clear();
        self.crash_on = true;
        let dir = self.data_dir.clone();
        let mut names: Vec<_> = std::fs::read_dir(&dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            use std::os::unix::fs::MetadataExt;
            if let (Ok(m), Ok(c)) = (std::fs::metadata(&p), std::fs::read(&p)) {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                self.recs.insert(m.ino(), FileRec { sizes: vec![c.len() as u64], durable: c, synced: true });
                self.journal.push(NsOp::Create(n, m.ino()));
            }
        }
        self.durable_upto = self.journal.len();
    }

    pub fn set_read_only(&mut self, path: &str, errno: i32) {
        self.ro.push((path.to_string(), errno));
    }
    pub fn clear_read_only(&mut self) {
        self.ro.clear();
    }
    pub fn open_fds(&self) -> Vec<String> {
        self.fds.iter().map(|(k, f)| format!("{}:{}", k, self.rel(&f.path))).collect()
    }
    pub fn live_maps(&self) -> usize {
        self.maps.len()
    }
    pub fn begin_op(&mut self, op: u32) {
        self.op = op;
        self.hard_fired_in_op = 0;
    }
}

pub fn is_benign(c: Class, k: Kind) -> bool {
    match k {
        Kind::Eintr | Kind::Spurious => true,
        Kind::Short(_) => c != Class::Source,
        Kind::Errno(e) => c == Class::Copy && (e == libc::EXDEV || e == libc::ENOSYS),
        _ => false,
    }
}

/// Spurious futex wake-up?
pub fn spurious() -> bool {
    let f = fs();
    let nth = f.futex_n;
    f.futex_n += 1;
    if let Some(l) = &f.plan.list {
        if !l.iter().any(|x| x.class == Class::Futex && x.nth == nth) {
            return false;
        }
    } else {
        let inv = f.plan.gen.spurious_inv;
        if inv == 0 || f.rng.below(inv as usize) != 0 {
            return false;
        }
    }
    f.fire(Fault { op: 0, class: Class::Futex, nth, kind: Kind::Spurious, sticky: false });
    true
}

// ---- the interposed calls --------------------------------------------------------------------

unsafe fn cstr(p: *const libc::c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().to_string()
}
fn ino_of(fd: i32) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        raw::syscall3(libc::SYS_fstat, fd as i64, &mut st as *mut _ as i64, 0);
        st.st_ino
    }
}
fn tfd(fd: i32) -> bool {
    sched::active() && fs().fds.contains_key(&fd)
}
fn fail(e: i32) -> i64 {
    raw::set_errno(e);
    -1
}

pub unsafe fn open(dirfd: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i64 {
    let go = |p: *const libc::c_char| raw::syscall6(libc::SYS_openat, dirfd as i64, p as i64, flags as i64, mode as i64, 0, 0);
    if !sched::active() {
        return raw::ret(go(path));
    }
    let p = cstr(path);
    if !fs().tracked(&p) {
        // the code under test must not create or modify anything outside its scratch directory
        if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            return fail(libc::EACCES);
        }
        return raw::ret(go(path));
    }
    sched::point();
    let f = fs();
    let acc = flags & libc::O_ACCMODE;
    if acc != libc::O_RDONLY {
        if let Some(r) = f.ro.iter().find(|r| r.0 == p) {
            let e = r.1;
            *f.counts.entry(if e == libc::EROFS { "open:EROFS(read-only)".into() } else { "open:EACCES(read-only)".into() }).or_insert(0) += 1;
            f.log("open-ro-refused", &p, flags as i64, 0, -(e as i64));
            return fail(e);
        }
    }
    let tmp = flags & libc::O_TMPFILE == libc::O_TMPFILE;
    match f.decide(Class::Open) {
        Some(Kind::Errno(e)) => {
            f.log("open", &p, flags as i64, 0, -(e as i64));
            return fail(e);
        }
        Some(Kind::Eintr) => return fail(libc::EINTR),
        _ => {}
    }
    let existed = if flags & libc::O_CREAT != 0 { f.file_size(&p).is_some() } else { true };
    let r = go(path);
    f.log("open", &p, flags as i64, 0, if r >= 0 { 0 } else { r });
    if r >= 0 {
        let ino = ino_of(r as i32);
        f.fds.insert(r as i32, Fd { ino, path: p.clone() });
        if f.dur() && !existed && !tmp && p.starts_with(&f.data_dir) {
            let name = p[f.data_dir.len()..].to_string();
            f.recs.insert(ino, FileRec { sizes: vec![0], ..Default::default() });
            f.journal.push(NsOp::Create(name, ino));
            f.crash_point();
        }
        if f.dur() && existed && flags & libc::O_TRUNC != 0 {
            f.after_mutation(ino, &p);
        }
    }
    raw::ret(r)
}
pub unsafe fn close(fd: i32) -> i64 {
    if sched::enabled() && sched::cur() != sched::NOT_A_TASK {
        fs().copied.remove(&fd);
    }
    if sched::active() {
        if let Some(x) = fs().fds.remove(&fd) {
            fs().log("close", &x.path, 0, 0, 0);
        }
    } else if sched::enabled() && sched::cur() != sched::NOT_A_TASK {
        fs().fds.remove(&fd);
    }
    raw::ret(raw::syscall3(libc::SYS_close, fd as i64, 0, 0))
}
pub unsafe fn dup_track(old: i32, new: i64) {
    if new >= 0 && tfd(old) {
        let (ino, path) = {
            let f = &fs().fds[&old];
            (f.ino, f.path.clone())
        };
        fs().fds.insert(new as i32, Fd { ino, path });
    }
}

/// off < 0: use the file cursor
pub unsafe fn read(fd: i32, buf: *mut u8, len: usize, off: i64) -> i64 {
    let go = |len: usize| {
        if off < 0 {
            raw::syscall3(libc::SYS_read, fd as i64, buf as i64, len as i64)
        } else {
            raw::syscall6(libc::SYS_pread64, fd as i64, buf as i64, len as i64, off, 0, 0)
        }
    };
    if !tfd(fd) {
        return raw::ret(go(len));
    }
    sched::point();
    let f = fs();
    let path = f.fds[&fd].path.clone();
    let mut l = len;
    let mut flip = None;
    match f.decide(Class::Read) {
        Some(Kind::Errno(e)) => {
            f.log("read", &path, off, len as i64, -(e as i64));
            return fail(e);
        }
        Some(Kind::Eintr) => return fail(libc::EINTR),
        Some(Kind::Short(p)) => l = short(len, p),
        Some(Kind::Flip(b)) => flip = Some(b),
        Some(Kind::Eof) => l = 0,
        _ => {}
    }
    let r = go(l);
    if let (Some(b), true) = (flip, r > 0) {
        let bit = b as usize % (r as usize * 8);
        *buf.add(bit / 8) ^= 1 << (bit % 8);
    }
    f.log("read", &path, off, len as i64, r);
    raw::ret(r)
}
fn short(len: usize, permille: u32) -> usize {
    if len <= 1 {
        len
    } else {
        (len * permille as usize / 1000).clamp(1, len - 1)
    }
}
pub unsafe fn write(fd: i32, buf: *const u8, len: usize, off: i64) -> i64 {
    let go = |len: usize| {
        if off < 0 {
            raw::syscall3(libc::SYS_write, fd as i64, buf as i64, len as i64)
        } else {
            raw::syscall6(libc::SYS_pwrite64, fd as i64, buf as i64, len as i64, off, 0, 0)
        }
    };
    if !tfd(fd) {
        return raw::ret(go(len));
    }
    sched::point();
    let f = fs();
    f.crash_point_often();
    let (ino, path) = (f.fds[&fd].ino, f.fds[&fd].path.clone());
    let mut l = len;
    match f.decide(Class::Write) {
        Some(Kind::Errno(e)) => {
            f.log("write", &path, off, len as i64, -(e as i64));
            return fail(e);
        }
        Some(Kind::Eintr) => return fail(libc::EINTR),
        Some(Kind::Short(p)) => l = short(len, p),
        Some(Kind::Torn(e, p)) => {
            if len <= 1 {
                return fail(e);
            }
            l = short(len, p);
            f.arm(Class::Write, Kind::Errno(e));
        }
        _ => {}
    }
    let r = go(l);
    f.log("write", &path, off, len as i64, r);
    if r > 0 {
        f.after_mutation(ino, &path);
    }
    raw::ret(r)
}
pub unsafe fn ftruncate(fd: i32, len: i64) -> i64 {
    let go = || raw::syscall3(libc::SYS_ftruncate, fd as i64, len, 0);
    if !tfd(fd) {
        return raw::ret(go());
    }
    sched::point();
    let f = fs();
    f.crash_point();
    let (ino, path) = (f.fds[&fd].ino, f.fds[&fd].path.clone());
    match f.decide(Class::Trunc) {
        Some(Kind::Errno(e)) => {
            f.log("ftruncate", &path, len, 0, -(e as i64));
            return fail(e);
        }
        Some(Kind::Eintr) => return fail(libc::EINTR),
        _ => {}
    }
    let r = go();
    f.log("ftruncate", &path, len, 0, r);
    if r >= 0 {
        f.after_mutation(ino, &path);
        f.crash_point();
    }
    raw::ret(r)
}
pub unsafe fn fsync(fd: i32) -> i64 {
    if !tfd(fd) {
        return raw::ret(raw::syscall3(libc::SYS_fsync, fd as i64, 0, 0));
    }
    sched::point();
    let f = fs();
    f.crash_point();
    let (ino, path) = (f.fds[&fd].ino, f.fds[&fd].path.clone());
    match f.decide(Class::Fsync) {
        Some(Kind::Errno(e)) => {
            f.log("fsync", &path, 0, 0, -(e as i64));
            f.sync_failed(ino);
            return fail(e);
        }
        Some(Kind::Eintr) => return fail(libc::EINTR),
        _ => {}
    }
    f.log("fsync", &path, 0, 0, 0);
    f.on_sync(ino, &path);
    f.crash_point();
    0
}
pub unsafe fn msync(addr: usize, len: usize, flags: i32) -> i64 {
    if sched::active() {
        // find the mapping that contains addr
        let hit = fs().maps.range(..=addr).next_back().filter(|(a, m)| addr < **a + m.0).map(|(a, m)| (*a, m.1, m.2));
        if let Some((base, ino, off)) = hit {
            sched::point();
            let f = fs();
            f.crash_point();
            if let Some(Kind::Errno(e)) = f.decide(Class::Fsync) {
                f.log("msync", "", len as i64, flags as i64, -(e as i64));
                f.sync_failed(ino);
                return fail(e);
            }
            f.log("msync", "", len as i64, flags as i64, 0);
            if flags & libc::MS_SYNC != 0 {
                if let Some(p) = f.data_path_of(ino) {
                    let start = off as usize + (addr - base);
                    f.on_sync_range(ino, &p, start, start + len);
                }
            }
            f.crash_point();
            return 0;
        }
    }
    raw::ret(raw::syscall3(libc::SYS_msync, addr as i64, len as i64, flags as i64))
}
impl Fs {
    fn data_path_of(&self, ino: u64) -> Option<String> {
        let mut out = None;
        for op in &self.journal {
            match op {
                NsOp::Create(n, i) if *i == ino => out = Some(n.clone()),
                NsOp::Rename(a, b) if out.as_deref() == Some(a) => out = Some(b.clone()),
                _ => {}
            }
        }
        out.map(|n| format!("{}{}", self.data_dir, n))
    }
}
/// fd-based or path-based stat: returns Some(errno) when a fault is injected
pub unsafe fn stat_fault(fd: i32, path: *const libc::c_char) -> Option<i32> {
    if !sched::active() {
        return None;
    }
    let p = if !path.is_null() && *path != 0 {
        let p = cstr(path);
        if !fs().tracked(&p) {
            return None;
        }
        p
    } else {
        fs().fds.get(&fd)?.path.clone()
    };
    sched::point();
    let f = fs();
    let k = f.decide(Class::Stat);
    f.log("stat", &p, 0, 0, if k.is_some() { -1 } else { 0 });
    match k {
        Some(Kind::Errno(e)) => Some(e),
        _ => None,
    }
}
pub unsafe fn unlink(path: *const libc::c_char, nr: i64, dirfd: i32, flags: i32) -> i64 {
    let go = || {
        if nr == libc::SYS_unlinkat {
            raw::syscall3(nr, dirfd as i64, path as i64, flags as i64)
        } else {
            raw::syscall3(nr, path as i64, 0, 0)
        }
    };
    if !sched::active() {
        return raw::ret(go());
    }
    let p = cstr(path);
    if !fs().tracked(&p) {
        // never let the code under test remove anything outside its scratch directory
        return fail(libc::EPERM);
    }
    sched::point();
    let f = fs();
    f.crash_point();
    match f.decide(Class::Unlink) {
        Some(Kind::Errno(e)) => {
            f.log("unlink", &p, 0, 0, -(e as i64));
            return fail(e);
        }
        _ => {}
    }
    let r = go();
    f.log("unlink", &p, 0, 0, r);
    if r >= 0 && f.dur() && p.starts_with(&f.data_dir) {
        let n = p[f.data_dir.len()..].to_string();
        f.journal.push(NsOp::Unlink(n));
        f.crash_point();
    }
    raw::ret(r)
}
pub unsafe fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i64 {
    let go = || raw::syscall3(libc::SYS_rename, a as i64, b as i64, 0);
    if !sched::active() {
        return raw::ret(go());
    }
    let (p, q) = (cstr(a), cstr(b));
    if !fs().tracked(&p) || !fs().tracked(&q) {
        return fail(libc::EPERM);
    }
    sched::point();
    let f = fs();
    f.crash_point();
    if let Some(Kind::Errno(e)) = f.decide(Class::Unlink) {
        return fail(e);
    }
    let r = go();
    f.log("rename", &p, 0, 0, r);
    if r >= 0 {
        for x in f.fds.values_mut() {
            if x.path == q {
                x.path = format!("{} (replaced)", q);
            } else if x.path == p {
                x.path = q.clone();
            }
        }
    }
    if r >= 0 && f.dur() && p.starts_with(&f.data_dir) && q.starts_with(&f.data_dir) {
        let (x, y) = (p[f.data_dir.len()..].to_string(), q[f.data_dir.len()..].to_string());
        f.journal.push(NsOp::Rename(x, y));
        f.crash_point();
    }
    raw::ret(r)
}
pub unsafe fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> i64 {
    let go = || raw::syscall6(libc::SYS_mmap, addr as i64, len as i64, prot as i64, flags as i64, fd as i64, off);
    if fd < 0 || !tfd(fd) {
        return raw::ret(go());
    }
    sched::point();
    let f = fs();
    let (ino, path) = (f.fds[&fd].ino, f.fds[&fd].path.clone());
    if let Some(Kind::Errno(e)) = f.decide(Class::Mmap) {
        f.log("mmap", &path, off, len as i64, -(e as i64));
        return fail(e);
    }
    let r = go();
    f.log("mmap", &path, off, len as i64, if r > 0 { 0 } else { r });
    if !(r < 0 && r > -4096) {
        f.maps.insert(r as usize, (len, ino, off));
    }
    raw::ret(r)
}
pub unsafe fn munmap(addr: usize, len: usize) -> i64 {
    if sched::enabled() && sched::cur() != sched::NOT_A_TASK {
        if fs().maps.remove(&addr).is_some() && sched::active() {
            fs().log("munmap", "", len as i64, 0, 0);
        }
    }
    raw::ret(raw::syscall3(libc::SYS_munmap, addr as i64, len as i64, 0))
}
/// copy_file_range / sendfile / splice: `nr` selects, args as given to the C function.
pub unsafe fn copy(nr: i64, a: [i64; 6], fd_in: i32, fd_out: i32, len_ix: usize) -> i64 {
    let mut a = a;
    if !tfd(fd_in) && !tfd(fd_out) {
        return raw::ret(raw::syscall6(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
    }
    sched::point();
    let f = fs();
    f.crash_point_often();
    let path = f.fds.get(&fd_out).map(|x| x.path.clone()).unwrap_or_default();
    let ino = f.fds.get(&fd_out).map(|x| x.ino).unwrap_or(0);
    let mut k = f.decide(Class::Copy);
    if let Some(Kind::Errno(e)) = k {
        if e == libc::EXDEV || e == libc::ENOSYS {
            // a kernel refuses a transfer before it moved anything, never midway
            if f.copied.contains(&fd_out) {
                k = None;
            } else if e == libc::EXDEV && nr != libc::SYS_copy_file_range {
                k = Some(Kind::Errno(libc::EINVAL));
            }
        }
    }
    match k {
        Some(Kind::Errno(e)) => {
            f.log("copy", &path, nr, 0, -(e as i64));
            return fail(e);
        }
        Some(Kind::Short(p)) => a[len_ix] = copy_short(fd_in, a[len_ix], p),
        Some(Kind::Torn(e, p)) => {
            a[len_ix] = copy_short(fd_in, a[len_ix], p);
            f.arm(Class::Copy, Kind::Errno(e));
        }
        Some(Kind::TornEof(p)) => {
            a[len_ix] = copy_short(fd_in, a[len_ix], p);
            f.arm(Class::Copy, Kind::Eof);
        }
        Some(Kind::Eof) => {
            f.log("copy", &path, nr, 0, 0);
            return 0;
        }
        _ => {}
    }
    // in crash runs move the data in small steps so that crash points fall inside the transfer
    if f.dur() {
        a[len_ix] = a[len_ix].min(512);
    }
    let r = raw::syscall6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    f.log("copy", &path, nr, a[len_ix], r);
    if r > 0 && ino != 0 {
        f.copied.insert(fd_out);
        f.after_mutation(ino, &path);
    }
    raw::ret(r)
}
unsafe fn copy_short(fd_in: i32, len: i64, p: u32) -> i64 {
    let mut st: libc::stat = std::mem::zeroed();
    raw::syscall3(libc::SYS_fstat, fd_in as i64, &mut st as *mut _ as i64, 0);
    let pos = raw::syscall3(libc::SYS_lseek, fd_in as i64, 0, libc::SEEK_CUR as i64);
    let rem = (st.st_size - pos).max(0).min(len) as usize;
    short(rem.max(1), p) as i64
}
