//! C14: discarded rows are never served as if they were data.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::{self, Op, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["lc-v1", "lc-v2", "lc-v2-set", "lc-v2-source", "direct", "direct-no-reader", "store-no-reader", "single-discarded", "crosses-base-end", "crosses-cache-start", "inside-discarded", "refused", "boundary-index", "answered", "proof-below-file", "compound", "compound-refused"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let how = *r.pick(&["lc-v1", "lc-v1", "lc-v2", "lc-v2-set", "lc-v2-source", "direct", "direct-no-reader", "store-no-reader"]);
    let mut c = base_case(r, how, &["lc"], 4096);
    c.cfg = true;
    // mostly shapes that discard something
    if c.exp < 3 && r.chance(3, 4) {
        c.exp = 3;
        if c.leafs() > 4096 {
            c.exp = 2;
        }
    }
    let def = default_r(&c);
    let max = c.exp as usize - 1;
    // beyond the default no proof can be made, but reads are defined
    c.r = if r.chance(1, 5) { r.below(max + 1) } else { r.below(def + 1) };
    c.clients = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..r.range(6, 40) {
        c.ops.push(op(*r.pick(&["at", "into", "range", "range", "rinto", "rinto", "cproof", "proof"]), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

/// reads that both trees and bare stores offer
trait Rd: Sync {
    fn at(&self, i: usize) -> anyhow::Result<Vec<u8>>;
    fn into(&self, i: usize, b: &mut [u8]) -> anyhow::Result<()>;
    fn range(&self, a: usize, b: usize) -> anyhow::Result<Vec<u8>>;
    fn rinto(&self, a: usize, b: usize, buf: &mut [u8]) -> anyhow::Result<()>;
    fn tree(&self) -> Option<&dyn DynTree>;
}
impl Rd for Tree {
    fn at(&self, i: usize) -> anyhow::Result<Vec<u8>> {
        self.read_at(i)
    }
    fn into(&self, i: usize, b: &mut [u8]) -> anyhow::Result<()> {
        self.read_into(i, b)
    }
    fn range(&self, a: usize, b: usize) -> anyhow::Result<Vec<u8>> {
        self.read_range(a, b)
    }
    fn rinto(&self, a: usize, b: usize, buf: &mut [u8]) -> anyhow::Result<()> {
        self.read_range_into(a, b, buf)
    }
    fn tree(&self) -> Option<&dyn DynTree> {
        Some(&**self)
    }
}
impl Rd for Box<dyn DynStore> {
    fn at(&self, i: usize) -> anyhow::Result<Vec<u8>> {
        self.read_at(i)
    }
    fn into(&self, i: usize, b: &mut [u8]) -> anyhow::Result<()> {
        self.read_into(i, b)
    }
    fn range(&self, a: usize, b: usize) -> anyhow::Result<Vec<u8>> {
        self.read_range(a, b)
    }
    fn rinto(&self, a: usize, b: usize, buf: &mut [u8]) -> anyhow::Result<()> {
        self.read_range_into(a, b, buf)
    }
    fn tree(&self) -> Option<&dyn DynTree> {
        None
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "discarded";
    probe(&c.wl);
    let w = World::seeded(c, c.dseed, if c.wl.starts_with("direct") { "from_byte_slice" } else { "new" });
    fs::fs().faults_on = true;
    let (t, has_base, has_cache): (Box<dyn Rd>, bool, bool) = match c.wl.as_str() {
        "direct" | "direct-no-reader" => {
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            if c.wl == "direct" {
                put_file(&dir().join("base-t"), w.base());
                must(class, "set reader", || t.set_reader(&dir().join("base-t")));
            }
            (Box::new(t), c.wl == "direct", c.wl == "direct")
        }
        "store-no-reader" => {
            put_file(&path_of("t"), &w.file(Kind::V2(c.r)));
            (Box::new(must(class, "open store", || w.combo().open_store(w.m.len(), &cfg("t", c.r)))), false, false)
        }
        f => {
            place_form(&w, f, &dir(), "t");
            (Box::new(must(class, "open", || open_form(&w, f, &dir(), "t"))), true, true)
        }
    };
    let m = &w.m;
    let cs = m.cache_start(c.r);
    let len = m.len();
    let t = &*t;
    let judge = |what: &str, a: usize, e: usize, r: std::result::Result<Vec<u8>, Fail>| {
        run::checked(1);
        // wholly in the base or wholly in the cache
        let served = (e <= m.leafs && has_base) || (a >= cs && e <= len && has_cache);
        match r {
            Ok(g) => {
                probe("answered");
                check!(e <= len && g == m.range(a, e), class, "{} {} leafs arity {} r{}: {} of nodes {}..{} (base ends {}, cache starts {}) returned bytes that are not those nodes", c.wl, m.leafs, c.arity, c.r, what, a, e, m.leafs, cs);
            }
            Err(e2) => {
                probe("refused");
                check!(!served, class, "{} r{}: {} of available nodes {}..{} failed: {:?}", c.wl, c.r, what, a, e, e2);
            }
        }
    };
    let one = |o: &Op| {
        // pick positions around the boundaries half of the time
        let edge = [0, m.leafs - 1, m.leafs, m.leafs + 1, cs - 1, cs, cs + 1, len - 1];
        let pos = |x: usize| (if x % 2 == 0 { edge[(x / 2) % edge.len()] } else { (x / 2) % len }).min(len - 1);
        let a = pos(o.a);
        let e = {
            let e = pos(o.b) + 1;
            if e > a {
                e
            } else {
                (a + 1 + (o.b / 4) % 40).min(len)
            }
        };
        if [m.leafs, cs, m.leafs.wrapping_sub(1)].contains(&a) {
            probe("boundary-index");
        }
        match o.k.as_str() {
            "at" | "into" => {
                if a >= m.leafs && a < cs {
                    probe("single-discarded");
                }
                if o.k == "at" {
                    judge("read_at", a, a + 1, attempt(|| t.at(a)));
                } else {
                    let mut b = vec![0xA5; m.n];
                    judge("read_into", a, a + 1, attempt(|| t.into(a, &mut b)).map(|_| b));
                }
            }
            "range" | "rinto" => {
                if a < m.leafs && e > m.leafs {
                    probe("crosses-base-end");
                }
                if a < cs && e > cs {
                    probe("crosses-cache-start");
                }
                if a >= m.leafs && e <= cs {
                    probe("inside-discarded");
                }
                if o.k == "range" {
                    judge("read_range", a, e, attempt(|| t.range(a, e)));
                } else {
                    let mut b = vec![0xA5; m.n * (e - a)];
                    judge("read_range_into", a, e, attempt(|| t.rinto(a, e, &mut b)).map(|_| b));
                }
            }
            _ => {
                if let Some(t) = t.tree() {
                    let i = o.a % m.leafs;
                    let x = o.b % (m.row_count() + 1);
                    let r = if o.k == "proof" { attempt(|| t.proof(i)) } else { attempt(|| t.cached_proof(i, if x == m.row_count() { None } else { Some(x) })) };
                    if x < c.r {
                        probe("proof-below-file");
                    }
                    if let Ok(p) = r {
                        if let Some(d) = proof_diff(&*p, m, i) {
                            violation(class, &format!("{} r{}: {} with rows {}: {}", c.wl, c.r, o.k, x, d));
                        }
                    }
                    run::checked(1);
                }
            }
        }
    };
    if c.clients > 1 {
        let one = &one;
        clients(class, (0..c.clients).map(|k| Box::new(move || c.ops.iter().enumerate().filter(|x| x.0 % c.clients == k).for_each(|x| one(x.1))) as Box<dyn FnOnce() + Send>).collect());
    } else {
        c.ops.iter().for_each(|o| one(o));
    }
    // small trees: every range
    if len <= 40 {
        for a in 0..len {
            for e in a + 1..=len {
                judge("read_range", a, e, attempt(|| t.range(a, e)));
                let mut b = vec![0xA5; m.n * (e - a)];
                judge("read_range_into", a, e, attempt(|| t.rinto(a, e, &mut b)).map(|_| b));
            }
        }
    }
}
