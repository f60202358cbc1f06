//! C18: every operation finishes, and failures inside parallel sections surface.
use super::c02::{read_op, READS};
use super::util::*;
use crate::fs::{self, Class, Kind as FKind};
use crate::rng::Rng;
use crate::run::{self, Case, Op, RunSpec};
use crate::types::HASH_FAULTS;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const PROBES: &[&str] = &["one-worker", "nested-builds", "deep-nesting", "own-pool", "hash-panic", "hash-panic-surfaced", "io-error-surfaced", "pool-usable-after", "shared-tree-usable-after", "clients", "compact", "spawned", "compound", "wide-builds"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let wl = *r.pick(&["threads", "scope", "scope", "nested", "own-pool"]);
    let max = if r.chance(1, 12) { 16384 } else { 2048 };
    let mut c = base_case(r, wl, &["vec", "disk", "mmap", "lc"], max);
    c.pool = *r.pick(&[1, 1, 1, 2, 2, 3, 4, 8]);
    c.clients = r.range(1, 4);
    c.r = 0;
    c.knob = vec![r.range(1, 3) as i64, 0];
    // several builds of one kind, each wide enough that its rows are shared out among the workers
    if r.chance(1, 10) && matches!(c.arity, 2 | 4) {
        c.exp = if c.arity == 2 { 13 } else { 7 };
        c.wl = r.pick(&["scope", "scope", "nested", "threads"]).to_string();
        c.pool = r.range(2, 4);
        c.clients = r.range(3, 5);
        c.knob[1] = 1;
    }
    let wide = c.knob[1] == 1;
    for k in 0..c.clients {
        for _ in 0..if wide { 1 } else { r.range(1, 4) } {
            c.ops.push(op(*r.pick(if wide { &["build"] } else { &["build", "build", "build", "compact", "read", "proofs"] }), r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
        }
    }
    let mut sp = sched_plan(r);
    sp.cap = 3_000_000 + (c.leafs() * c.ops.len() * 600) as u64;
    let mut io = match r.below(4) {
        0 => no_faults(r),
        1 => benign(r),
        2 => hard(r, ALL_IO),
        _ => {
            let mut io = no_faults(r);
            io.gen.panic = true;
            io.gen.rates = vec![(Class::Hash, *r.pick(&[1, 5, 30, 200, 1000, 4000]))];
            io.gen.budget = r.range(1, 3) as u32;
            io
        }
    };
    io.gen.spurious_inv = *r.pick(&[0, 2, 10]);
    spec("", seed, c, sp, io)
}

fn hard_fired(panics: bool) -> usize {
    fs::fs().fired.iter().filter(|f| !fs::is_benign(f.class, f.kind) && (matches!(f.kind, FKind::Panic) == panics)).count()
}

fn task(c: &Case, n: usize, o: &Op, shared: &(crate::tree::Tree, World), failed: &AtomicUsize) {
    let class = "wedged";
    let mut c2 = c.clone();
    c2.store = ["vec", "disk", "mmap", "lc", c.store.as_str()][o.a % 5].to_string();
    c2.cfg = c2.store != "vec" && (c2.store == "lc" || o.b % 2 == 0);
    if c.kn(1) == 1 {
        probe("wide-builds");
        c2.store = c.store.clone();
        c2.cfg = c2.store == "lc" || o.b % 2 == 0;
    } else if o.b % 7 != 0 {
        c2.exp = 1 + (o.a as u32 / 8) % c.exp;
    }
    let ctors = ["new", "from_data", "try_from_iter", "from_par_iter", "from_par_iter", "from_byte_slice"];
    let id = format!("k{}", n);
    match o.k.as_str() {
        "build" | "compact" => {
            if o.k == "compact" {
                c2.store = "disk".into();
                c2.cfg = true;
            }
            let w = World::seeded(&c2, o.b as u64, ctors[o.b % ctors.len()]);
            let r = attempt(|| {
                let mut t = w.build(if c2.cfg { Some(cfg(&id, 0)) } else { None })?;
                if o.k == "compact" {
                    probe("compact");
                    t.compact(cfg(&id, 0), c.ver)?;
                }
                Ok(t)
            });
            match r {
                Ok(t) => check!(t.root() == w.m.root(), class, "build {} next to others has a wrong root", n),
                Err(Fail::Err(e)) => {
                    failed.fetch_add(1, Ordering::Relaxed);
                    probe("io-error-surfaced");
                    check!(hard_fired(false) + hard_fired(true) > 0, class, "build {} failed although nothing was wrong: {}", n, e);
                }
                Err(Fail::Panic(m)) => {
                    failed.fetch_add(1, Ordering::Relaxed);
                    check!(hard_fired(true) > 0, class, "build {} panicked although no hash did: {}", n, m);
                }
            }
        }
        _ => {
            let (t, w) = shared;
            let kinds: &[&str] = if o.k == "read" { &["at", "range"] } else { READS };
            for j in 0..3 {
                let q = run::op(kinds[(o.b + j) % kinds.len()], o.a + j, o.b, 0);
                match super::c02::read_eval(&**t, w, &q) {
                    (_, Ok(None)) => {}
                    (_, Ok(Some(m))) if m.contains("injected hash panic") => {
                        failed.fetch_add(1, Ordering::Relaxed);
                    }
                    (what, Ok(Some(m))) => violation(class, &format!("{}: {}", what, m)),
                    (what, Err(Fail::Panic(m))) => {
                        failed.fetch_add(1, Ordering::Relaxed);
                        check!(hard_fired(true) > 0, class, "{}: panicked although no hash did: {}", what, m)
                    }
                    (what, Err(Fail::Err(e))) => check!(hard_fired(false) > 0, class, "{}: failed although nothing was wrong: {}", what, e),
                }
            }
        }
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "wedged";
    if c.pool == 1 {
        probe("one-worker");
    }
    // a tree that everybody reads
    let mut sc = c.clone();
    sc.exp = c.exp.min(3);
    if sc.store == "lc" {
        sc.store = "disk".into();
    }
    sc.cfg = sc.store != "vec";
    sc.ctor = "new".into();
    let sw = World::new(&sc);
    let st = must(class, "build the shared tree", || sw.build(if sc.cfg { Some(cfg("shared", 0)) } else { None }));
    let shared = (st, sw);
    let failed = AtomicUsize::new(0);
    let (sh, fl) = (&shared, &failed);
    fs::fs().begin_op(1);
    unsafe { HASH_FAULTS = true };
    fs::fs().faults_on = true;
    let by = |k: usize| -> Vec<(usize, Op)> { c.ops.iter().cloned().enumerate().filter(|o| o.1.c == k as u64).collect() };
    match c.wl.as_str() {
        "threads" => {
            probe("clients");
            clients(class, (0..c.clients).map(|k| { let v = by(k); Box::new(move || v.iter().for_each(|(n, o)| task(c, *n, o, sh, fl))) as Box<dyn FnOnce() + Send> }).collect());
        }
        "scope" => {
            // several builds inside the pool at once
            probe("nested-builds");
            rayon::scope(|s| {
                for k in 0..c.clients {
                    let v = by(k);
                    probe("spawned");
                    s.spawn(move |_| v.iter().for_each(|(n, o)| task(c, *n, o, sh, fl)));
                }
            });
        }
        "nested" => {
            probe("deep-nesting");
            fn go(c: &Case, depth: usize, lo: usize, hi: usize, f: &(dyn Fn(usize) + Sync)) {
                if hi - lo <= 1 || depth == 0 {
                    (lo..hi).for_each(f);
                } else {
                    let mid = (lo + hi) / 2;
                    rayon::join(|| go(c, depth - 1, lo, mid, f), || go(c, depth - 1, mid, hi, f));
                }
            }
            let f = |i: usize| task(c, i, &c.ops[i], sh, fl);
            go(c, 4, 0, c.ops.len(), &f);
        }
        _ => {
            probe("own-pool");
            let p = rayon::ThreadPoolBuilder::new().num_threads(c.kn(0).max(1) as usize).build();
            match p {
                Ok(p) => p.install(|| c.ops.iter().enumerate().for_each(|(n, o)| task(c, n, o, sh, fl))),
                Err(_) => violation("harness", "cannot build a pool"),
            }
        }
    }
    heal();
    unsafe { HASH_FAULTS = false };
    if hard_fired(true) > 0 {
        probe("hash-panic");
        check!(failed.load(Ordering::Relaxed) > 0, class, "a hash function panicked during a build and every build reported success");
        probe("hash-panic-surfaced");
    }
    // everything still works
    let mut c3 = c.clone();
    c3.store = "disk".into();
    c3.cfg = true;
    let w = World::seeded(&c3, 4242, "from_par_iter");
    let t = must(class, "a build after the trouble", || w.build(Some(cfg("after", 0))));
    check!(t.root() == w.m.root(), class, "a build after the trouble is wrong");
    probe("pool-usable-after");
    let mut rng = rng_of(c, 18);
    for _ in 0..4 {
        read_op(class, &*shared.0, &shared.1, &run::op(*rng.pick(READS), rng.next() as u32 as usize, rng.next() as u32 as usize, 0));
    }
    probe("shared-tree-usable-after");
}
