//! C04: every backend behaves as one array, even under short I/O.
use super::util::*;
use crate::fs;
use crate::model;
use crate::rng::Rng;
use crate::run::{self, Case, Op, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["gap-write", "bulk", "push", "beyond-capacity", "reinit", "unmapped", "reopen", "from-slice", "page-straddling", "lc-array", "lc-temporary", "temporary", "out-of-range-read", "huge", "megabytes"];

/// capacity in elements; knob[0] holds it for everything but a configured lc, whose capacity is a tree size
pub fn capacity(c: &Case) -> usize {
    if c.store == "lc" && c.cfg {
        let (mut w, mut n) = (c.leafs(), 0);
        while w > 0 {
            n += w;
            w /= c.arity;
        }
        n
    } else {
        c.kn(0).max(1) as usize
    }
}
pub fn gen_store(r: &mut Rng, wl: &str, stores: &[&str]) -> Case {
    let mut c = base_case(r, wl, stores, 1024);
    let cap = match r.below(10) {
        0..=6 => r.range(1, 40),
        7 | 8 => r.range(40, 600),
        _ => r.range(600, 6000),
    };
    c.knob = vec![cap as i64, if r.chance(1, 3) { r.range(0, cap) as i64 } else { -1 }];
    if c.store == "lc" {
        c.cfg = wl == "store" || r.chance(2, 3);
        c.r = 0;
        c.knob[1] = if r.chance(1, 3) { r.below(capacity(&c) + 1) as i64 } else { -1 };
    }
    c
}
/// now and then megabytes, so that one bulk write or read spans many blocks
pub fn maybe_large(r: &mut Rng, c: &mut Case) -> bool {
    if c.store == "vec" || !r.chance(1, 120) {
        return false;
    }
    if c.store == "lc" {
        c.cfg = false;
    }
    let cap = r.range(1 << 19, 9 << 20) / c.elem;
    c.knob = vec![cap as i64, if r.chance(1, 3) { r.range(0, cap) as i64 } else { -1 }];
    true
}
pub fn gen_ops(r: &mut Rng, c: &mut Case, n: usize, kinds: &[&str]) {
    let cap = capacity(c);
    for _ in 0..n {
        let k = *r.pick(kinds);
        let a = if r.chance(1, 5) { *r.pick(&[0, cap - 1, cap / 2]) } else { r.below(cap) };
        let b = 1 + if r.chance(1, 4) { r.below(cap - a) } else { r.below((cap - a).min(8)) };
        c.ops.push(op(k, a, b.min(cap - a), r.next()));
    }
}
pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    if r.chance(1, 25) {
        return gen_huge(r, seed);
    }
    let mut c = gen_store(r, "array", &["vec", "disk", "disk", "mmap", "mmap", "lc"]);
    let n = if maybe_large(r, &mut c) { r.range(3, 10) } else { r.range(5, 60) };
    let kinds = ["w", "w", "w", "b", "b", "p", "p", "at", "into", "rng", "rng", "rinto", "last", "sync", "reinit", "unmap", "reopen", "over", "oob", "all", "odd"];
    gen_ops(r, &mut c, n, &kinds);
    let sp = sched_plan(r);
    let io = if r.chance(3, 4) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

pub struct Arr {
    pub n: usize,
    pub cap: usize,
    pub store: String,
    pub data: Vec<u8>,
    pub mapped: bool,
    pub cfg: bool,
}
impl Arr {
    pub fn new(c: &Case) -> Arr {
        Arr { n: c.elem, cap: capacity(c), store: c.store.clone(), data: vec![], mapped: true, cfg: c.cfg }
    }
    pub fn len(&self) -> usize {
        self.data.len() / self.n
    }
    pub fn put(&mut self, start: usize, b: &[u8]) {
        let e = start * self.n + b.len();
        if self.data.len() < e {
            self.data.resize(e, 0);
        }
        self.data[start * self.n..e].copy_from_slice(b);
    }
    pub fn at(&self, i: usize) -> &[u8] {
        &self.data[i * self.n..(i + 1) * self.n]
    }
    pub fn bytes(&self, o: &Op) -> Vec<u8> {
        model::values(o.c, if o.k == "b" { o.b } else { 1 }, self.n)
    }
}
pub fn create(c: &Case, m: &mut Arr) -> Box<dyn DynStore> {
    let cf = if c.cfg && c.store != "vec" { Some(cfg("s", 0)) } else { None };
    if cf.is_none() && c.store != "vec" {
        probe("temporary");
    }
    if c.store == "lc" {
        probe(if c.cfg { "lc-array" } else { "lc-temporary" });
    }
    if capacity(c) * c.elem > 1 << 19 {
        probe("megabytes");
    }
    let k = c.kn(1);
    if k >= 0 {
        probe("from-slice");
        let d = model::items(c.dseed, (k as usize).min(m.cap), m.n);
        m.put(0, &d);
        must("array", "create from slice", || combo(c.elem, c.arity, &c.store).new_store_slice(m.cap, &d, cf))
    } else {
        must("array", "create", || combo(c.elem, c.arity, &c.store).new_store(m.cap, cf))
    }
}
/// everything readable equals the model
pub fn compare(class: &str, what: &str, s: &dyn DynStore, m: &Arr) {
    check!(s.len() == m.len(), class, "{}: length {} expected {}", what, s.len(), m.len());
    check!(s.is_empty() == (m.len() == 0), class, "{}: is_empty wrong", what);
    if m.len() == 0 || !m.mapped {
        return;
    }
    let g = must(class, &format!("{}: read all", what), || s.read_range(0, m.len()));
    if g != m.data {
        let k = (0..m.len()).find(|k| g.get(k * m.n..(k + 1) * m.n) != Some(m.at(*k))).unwrap_or(0);
        violation(class, &format!("{}: element {} of {} differs from the array", what, k, m.len()));
    }
    run::checked(m.len() as u64);
}

/// A store of several GiB, nearly all of it a hole: positions around 2^31 and 2^32 bytes.
fn gen_huge(r: &mut Rng, seed: u64) -> RunSpec {
    let mut c = base_case(r, "huge", &["disk", "mmap", "lc"], 1024);
    c.cfg = r.chance(1, 2);
    c.r = 0;
    if c.store == "lc" {
        c.arity = 2;
        c.elem = 8;
        c.exp = 29;
    }
    let cap = if c.store == "lc" { (1 << 30) - 1 } else { (5usize << 30) / c.elem + r.below(100) };
    c.knob = vec![cap as i64, -1];
    for _ in 0..r.range(6, 24) {
        let near = *r.pick(&[0, 1usize << 31, 1 << 32, 3 << 30, cap * c.elem]) / c.elem;
        let a = (near + r.below(12)).saturating_sub(6).min(cap - 1);
        let b = (1 + r.below(8)).min(cap - a);
        c.ops.push(op(*r.pick(&["w", "w", "b", "b", "p", "at", "into", "rng", "sync", "reinit", "reopen", "oob"]), a, b, r.next()));
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 2) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}
fn run_huge(c: &Case) {
    use std::collections::BTreeMap;
    let class = "array";
    probe("huge");
    let (cap, n) = (c.kn(0) as usize, c.elem);
    let cf = if c.cfg { Some(cfg("s", 0)) } else { None };
    let cb = combo(n, c.arity, &c.store);
    let mut m: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut len = 0;
    fs::fs().faults_on = true;
    let mut st = must(class, "create a huge store", || cb.new_store(cap, cf.clone()));
    let want = |m: &BTreeMap<usize, Vec<u8>>, a: usize, e: usize| (a..e).flat_map(|i| m.get(&i).cloned().unwrap_or(vec![0; n])).collect::<Vec<u8>>();
    for (k, o) in c.ops.iter().enumerate() {
        fs::fs().begin_op(k as u32 + 1);
        let what = format!("{} store of {} elements, op {} {}({}, {})", c.store, cap, k, o.k, o.a, o.b);
        match o.k.as_str() {
            "w" | "b" => {
                let cnt = if o.k == "w" { 1 } else { o.b };
                let b = model::values(o.c, cnt, n);
                if o.k == "w" {
                    must(class, &what, || st.write_at(&b, o.a));
                } else {
                    must(class, &what, || st.copy_from_slice(&b, o.a));
                }
                b.chunks(n).enumerate().for_each(|(j, x)| {
                    m.insert(o.a + j, x.to_vec());
                });
                len = len.max(o.a + cnt);
            }
            "p" if len < cap => {
                let b = model::values(o.c, 1, n);
                must(class, &what, || st.push(&b));
                m.insert(len, b);
                len += 1;
            }
            "p" => check!(attempt(|| st.push(&model::values(o.c, 1, n))).is_err(), class, "{}: push beyond capacity succeeded", what),
            "at" | "into" | "rng" if o.a < len => {
                let e = (o.a + o.b).min(len);
                let mut buf = vec![0x77; n];
                let (g, w) = match o.k.as_str() {
                    "at" => (must(class, &what, || st.read_at(o.a)), want(&m, o.a, o.a + 1)),
                    "into" => (must(class, &what, || st.read_into(o.a, &mut buf).map(|_| buf.clone())), want(&m, o.a, o.a + 1)),
                    _ => (must(class, &what, || st.read_range(o.a, e)), want(&m, o.a, e)),
                };
                check!(g == w, class, "{}: wrong bytes (length {})", what, len);
            }
            "oob" => check!(attempt(|| st.read_at(len + o.a % 3)).is_err(), class, "{}: read past the end succeeded", what),
            "sync" => must(class, &what, || st.sync()),
            "reinit" => must(class, &what, || st.reinit()),
            "reopen" if c.cfg => {
                drop(st);
                st = must(class, &what, || cb.open_store(cap, &cfg("s", 0)));
                len = cap;
            }
            _ => {}
        }
        check!(st.len() == len, class, "{}: length is {}, expected {}", what, st.len(), len);
    }
    for (i, b) in &m {
        let g = must(class, "read back", || st.read_at(*i));
        check!(g == *b, class, "{} store of {} elements: element {} differs", c.store, cap, i);
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    if c.wl == "huge" {
        return run_huge(c);
    }
    let class = "array";
    let mut m = Arr::new(c);
    fs::fs().faults_on = true;
    let mut st = create(c, &mut m);
    for (k, o) in c.ops.iter().enumerate() {
        fs::fs().begin_op(k as u32 + 1);
        let what = format!("{} cap {} op {} {}({}, {})", c.store, m.cap, k, o.k, o.a, o.b);
        let b = m.bytes(o);
        match o.k.as_str() {
            "w" => {
                if o.a > m.len() {
                    probe("gap-write");
                }
                if (o.a * m.n) / 4096 != (o.a * m.n + m.n - 1) / 4096 {
                    probe("page-straddling");
                }
                must(class, &what, || st.write_at(&b, o.a));
                m.put(o.a, &b);
                m.mapped = true;
            }
            "b" => {
                probe("bulk");
                must(class, &what, || st.copy_from_slice(&b, o.a));
                m.put(o.a, &b);
                m.mapped = true;
            }
            "odd" => {
                let b = model::values(o.c, 2, m.n);
                let cut = 1 + o.b % (m.n - 1);
                if o.a + 2 <= m.cap {
                    let e = attempt(|| st.copy_from_slice(&b[..m.n + cut], o.a));
                    check!(e.is_err(), class, "{}: accepted a slice that is not a whole number of elements", what);
                }
            }
            "p" => {
                probe("push");
                let l = m.len();
                if l < m.cap || c.store == "vec" {
                    must(class, &what, || st.push(&b));
                    m.put(l, &b);
                } else {
                    check!(attempt(|| st.push(&b)).is_err(), class, "{}: push beyond capacity succeeded", what);
                }
                m.mapped = true;
            }
            "over" => {
                probe("beyond-capacity");
                let i = m.cap + o.a % 3;
                if c.store == "vec" {
                    must(class, &what, || st.write_at(&b, i));
                    m.put(i, &b);
                } else if o.c & 1 == 0 {
                    check!(attempt(|| st.write_at(&b, i)).is_err(), class, "{}: write beyond capacity succeeded", what);
                    m.mapped = true;
                } else {
                    let b = model::values(o.c, 3, m.n);
                    check!(attempt(|| st.copy_from_slice(&b, m.cap.max(2) - 2)).is_err(), class, "{}: bulk write beyond capacity succeeded", what);
                    m.mapped = true;
                }
            }
            "at" | "into" | "rng" | "rinto" | "last" if m.len() > 0 => {
                let a = o.a % m.len();
                let e = a + 1 + (o.b - 1) % (m.len() - a);
                let mut buf = vec![0x77; m.n];
                let (got, want): (std::result::Result<Vec<u8>, Fail>, &[u8]) = match o.k.as_str() {
                    "at" => (attempt(|| st.read_at(a)), m.at(a)),
                    "into" => (attempt(|| st.read_into(a, &mut buf)).map(|_| buf), m.at(a)),
                    "rng" => (attempt(|| st.read_range(a, e)), &m.data[a * m.n..e * m.n]),
                    "rinto" if c.store == "disk" || c.store == "lc" => {
                        let mut big = vec![0x77; (e - a) * m.n];
                        (attempt(|| st.read_range_into(a, e, &mut big)).map(|_| big), &m.data[a * m.n..e * m.n])
                    }
                    _ => (attempt(|| st.last()), m.at(m.len() - 1)),
                };
                match got {
                    Ok(g) => check!(g == want, class, "{}: read {}..{} returned wrong bytes", what, a, e),
                    Err(_) if !m.mapped => probe("unmapped"),
                    Err(e) => violation(class, &format!("{}: read failed: {:?}", what, e)),
                }
            }
            "oob" => {
                probe("out-of-range-read");
                let i = m.len() + o.a % 3;
                check!(attempt(|| st.read_at(i)).is_err(), class, "{}: read past the end succeeded", what);
                let a = if m.len() > 0 { o.a % m.len() } else { 0 };
                check!(attempt(|| st.read_range(a, m.len() + 1)).is_err(), class, "{}: range past the end succeeded", what);
                let mut buf = vec![0; m.n];
                check!(attempt(|| st.read_into(i, &mut buf)).is_err(), class, "{}: read_into past the end succeeded", what);
            }
            "sync" => must(class, &what, || st.sync()),
            "reinit" => {
                probe("reinit");
                must(class, &what, || st.reinit());
                m.mapped = true;
            }
            "unmap" if c.store == "mmap" || c.store == "vec" => {
                must(class, &what, || st.compact(c.arity, cfg("s", 0), 2));
                if c.store == "mmap" {
                    m.mapped = false;
                }
            }
            "reopen" if c.cfg && c.store != "vec" => {
                probe("reopen");
                drop(st);
                st = must(class, &what, || combo(c.elem, c.arity, &c.store).open_store(m.cap, &cfg("s", 0)));
                m.data.resize(m.cap * m.n, 0);
                m.mapped = true;
            }
            "all" => compare(class, &what, &*st, &m),
            _ => {}
        }
        check!(st.len() == m.len(), class, "{}: length is {}, expected {}", what, st.len(), m.len());
    }
    if !m.mapped {
        must(class, "reinit", || st.reinit());
        m.mapped = true;
    }
    compare(class, "at the end", &*st, &m);
}
