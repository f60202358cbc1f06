//! C02: concurrent readers and provers get the sequential answers.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::{self, Op, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["lc-v1", "lc-v2-file", "lc-v2-source", "direct-lc", "reader-during-build", "compound"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    if r.chance(1, 8) {
        let mut c = super::c16::gen_case(r);
        c.clients = r.range(2, 5);
        let per = r.range(2, 10);
        for k in 0..c.clients {
            for _ in 0..per {
                c.ops.push(op(*r.pick(super::c16::CREADS), r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
            }
        }
        let sp = sched_plan(r);
        let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
        return spec("", seed, c, sp, io);
    }
    let mut c = base_case(r, "readers", &["vec", "disk", "disk", "mmap", "lc", "lc"], 4096);
    c.cfg = c.store != "vec" && r.chance(2, 3);
    if c.store == "lc" {
        c.cfg = true;
        c.wl = r.pick(&["lc-v1", "lc-v2-file", "lc-v2-source", "direct-lc"]).to_string();
        c.r = r.below(default_r(&c) + 1);
    }
    c.clients = r.range(2, 5);
    let per = r.range(2, 14);
    for k in 0..c.clients {
        for _ in 0..per {
            let kind = if k == 0 && r.chance(1, 4) { "build" } else { *r.pick(READS) };
            c.ops.push(op(kind, r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
        }
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

/// Put a partially cached tree in place and open it.
pub fn open_cached(w: &World, how: &str, id: &str) -> Tree {
    let (leafs, len) = (w.m.leafs, w.m.len());
    let r = w.c.r;
    let base = dir().join(format!("base-{}", id));
    match how {
        "lc-v1" => {
            put_file(&path_of(id), &w.file(Kind::V1(r)));
            must("open", "open v1", || w.combo().open(leafs, len, &cfg(id, r)))
        }
        "lc-v2-file" => {
            put_file(&path_of(id), &w.file(Kind::V2(r)));
            let off = (w.c.dseed % 5) as usize * 7;
            let mut b = vec![0xEE; off];
            b.extend_from_slice(w.base());
            b.extend_from_slice(&[0xDD; 33]);
            put_file(&base, &b);
            must("open", "open v2", || w.lc().open_with_reader(leafs, len, &cfg(id, r), &base, off))
        }
        "lc-v2-source" => {
            put_file(&path_of(id), &w.file(Kind::V2(r)));
            let off = (w.c.dseed % 3) as usize * 11;
            let mut b = vec![0xEE; off];
            b.extend_from_slice(w.base());
            crate::source::set(b);
            must("open", "open v2 source", || w.lc().open_with_source(leafs, len, &cfg(id, r), off))
        }
        _ => {
            let mut t = must("open", "build lc", || w.build(Some(cfg(id, r))));
            put_file(&base, w.base());
            must("open", "set reader", || t.set_reader(&base));
            t
        }
    }
}

/// One read-only operation. Ok(None): the right answer, Ok(Some): a wrong one.
pub fn read_eval(t: &dyn DynTree, w: &World, o: &Op) -> (String, std::result::Result<Option<String>, Fail>) {
    let m = &w.m;
    let lc = w.c.store == "lc";
    let cs = if lc { m.cache_start(w.c.r) } else { 0 };
    // a position that must be readable
    let pos = |x: usize| {
        if !lc {
            x % m.len()
        } else {
            let k = x % (m.leafs + m.len() - cs);
            if k < m.leafs {
                k
            } else {
                cs + k - m.leafs
            }
        }
    };
    let end = |a: usize, y: usize| {
        let hi = if lc && a < m.leafs { m.leafs } else { m.len() };
        a + 1 + y % (hi - a).min(100)
    };
    let what = format!("{} {} r{} {} {} {}", w.c.wl, w.c.store, w.c.r, o.k, o.a, o.b);
    let cmp = |got: &[u8], a: usize, e: usize| if got == m.range(a, e) { None } else { Some(format!("read of nodes {}..{} returned wrong bytes", a, e)) };
    run::checked(1);
    let r = match o.k.as_str() {
        "at" => {
            let i = pos(o.a);
            attempt(|| t.read_at(i)).map(|g| cmp(&g, i, i + 1))
        }
        "into" => {
            let i = pos(o.a);
            let mut b = vec![0x11; m.n];
            attempt(|| t.read_into(i, &mut b)).map(|_| cmp(&b, i, i + 1))
        }
        "range" => {
            let a = pos(o.a);
            let e = end(a, o.b);
            attempt(|| t.read_range(a, e)).map(|g| cmp(&g, a, e))
        }
        "rinto" if lc || w.c.store == "disk" => {
            let a = pos(o.a);
            let e = end(a, o.b);
            let mut b = vec![0x11; m.n * (e - a)];
            attempt(|| t.read_range_into(a, e, &mut b)).map(|_| cmp(&b, a, e))
        }
        "proof" if !lc => {
            let i = o.a % m.leafs;
            attempt(|| t.proof(i)).map(|p| proof_diff(&*p, m, i))
        }
        "cproof" if lc || w.c.store == "disk" => {
            let i = o.a % m.leafs;
            let def = default_r(&w.c);
            let x = if lc { w.c.r + o.b % (def - w.c.r + 1) } else { o.b % (def + 1) };
            let x = if o.b % 5 == 0 { None } else { Some(x) };
            attempt(|| t.cached_proof(i, x)).map(|p| proof_diff(&*p, m, i))
        }
        _ => Ok(None),
    };
    (what, r)
}
pub const READS: &[&str] = &["at", "at", "into", "range", "rinto", "proof", "proof", "cproof", "cproof"];
/// One read-only operation that must succeed with the right answer.
pub fn read_op(class: &str, t: &dyn DynTree, w: &World, o: &Op) {
    match read_eval(t, w, o) {
        (_, Ok(None)) => {}
        (what, Ok(Some(m))) => violation(class, &format!("{}: {}", what, m)),
        (what, Err(e)) => violation(class, &format!("{}: {:?}", what, e)),
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    if c.sub > 0 {
        return compound(c);
    }
    let mut w = World::new(c);
    let t: Tree = if c.store == "lc" {
        probe(&c.wl);
        if c.wl == "direct-lc" {
            w = World::seeded(c, c.dseed, "from_byte_slice");
        }
        open_cached(&w, &c.wl, "shared")
    } else {
        must("open", "build", || w.build(if c.cfg { Some(cfg("shared", 0)) } else { None }))
    };
    fs::fs().faults_on = true;
    let (t, w) = (&*t, &w);
    let v = (0..c.clients)
        .map(|k| {
            let ops: Vec<(usize, Op)> = c.ops.iter().cloned().enumerate().filter(|o| o.1.c == k as u64).collect();
            Box::new(move || {
                for (n, o) in ops {
                    if o.k == "build" {
                        probe("reader-during-build");
                        let mut c2 = w.c.clone();
                        c2.exp = 1 + (o.a as u32) % c2.exp;
                        c2.store = ["vec", "disk", "mmap"][o.b % 3].to_string();
                        let w2 = World::seeded(&c2, o.a as u64, "new");
                        let t2 = must("concurrent", "concurrent build", || w2.build(if o.b & 8 == 0 { Some(cfg(&format!("other{}", n), 0)) } else { None }));
                        check!(t2.root() == w2.m.root(), "concurrent", "a tree built while others read has a wrong root");
                    } else {
                        read_op("concurrent", t, w, &o);
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    clients("concurrent", v);
    fs::fs().faults_on = false;
}

fn compound(c: &run::Case) {
    probe("compound");
    let cw = super::c16::CWorld::new(c);
    let rc = cw.prepare("a", &mut rng_of(c, 2));
    let all: Vec<usize> = (0..cw.parts.len()).collect();
    let t = must("open", "assemble", || cw.assemble("a", rc.as_ref(), &all));
    fs::fs().faults_on = true;
    let (t, cw) = (&*t, &cw);
    let v = (0..c.clients)
        .map(|k| {
            let ops: Vec<Op> = c.ops.iter().filter(|o| o.c == k as u64).cloned().collect();
            Box::new(move || {
                for o in ops {
                    match cw.read_eval(t, &o) {
                        (_, Ok(None)) => {}
                        (what, x) => violation("concurrent", &format!("{}: {:?}", what, x)),
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    clients("concurrent", v);
    fs::fs().faults_on = false;
    check!(t.root() == cw.root(), "concurrent", "compound root changed");
}
