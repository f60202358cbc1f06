//! C21: parallel iteration over a store visits every element once, in order.
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{self, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["vec", "disk", "empty", "one", "partly-filled", "iterate", "tree", "tree-huge", "read-error-surfaced", "right-despite-fault", "split-many", "nested", "to-vec", "to-disk", "to-mmap", "to-lc"];

pub fn gen(r: &mut Rng, seed: u64, thorough: bool) -> RunSpec {
    let wl = *r.pick(&["iterate", "iterate", "tree"]);
    let mut c = base_case(r, wl, &["vec", "disk", "disk"], 4096);
    let (e, a) = *r.pick(PAR_COMBOS);
    c.elem = e;
    c.arity = a;
    let max = if r.chance(1, 10) { 8192 } else { 512 };
    c.exp = pick_exp(r, a, max);
    let huge = if thorough { 80 } else { 300 };
    if wl == "tree" && r.chance(1, huge) {
        c.elem = 8;
        c.arity = 2;
        c.exp = 19;
    }
    c.pool = *r.pick(&[1, 2, 3, 4, 4, 8]);
    c.cfg = r.chance(1, 2);
    let top = *r.pick(&[3, 3, 9, 9, 70, 70, 300, 300, 2000, 2000, 20_000]);
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        _ => r.below(top) + 1,
    };
    let kmax = *r.pick(&[1, 2, 5, 40, n.max(1), n + 3]);
    // [elements, extra capacity, k, way, inside the pool, target]
    let extra = if r.chance(1, 4) { 1 + r.below(20) } else { 0 };
    let way = if wl == "iterate" { r.below(PAR_WAYS.len()) } else { r.below(3) };
    c.knob = vec![n as i64, extra as i64, (1 + r.below(kmax)) as i64, way as i64, r.chance(1, 3) as i64, r.below(4) as i64];
    let mut sp = sched_plan(r);
    sp.cap = 100_000_000;
    let io = match r.below(4) {
        0 => no_faults(r),
        1 => benign(r),
        _ => {
            let mut io = no_faults(r);
            io.gen.hard = true;
            let inv = if c.exp > 12 { *r.pick(&[1000, 30_000, 300_000, 500_000]) } else { *r.pick(&[1, 5, 30, 200, 1000]) };
            io.gen.rates = vec![(Class::Read, inv)];
            io.gen.budget = r.range(1, 3) as u32;
            io
        }
    };
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "par-iter";
    probe(&c.store);
    let mut rng = rng_of(c, 21);
    let src = if c.cfg { Some(cfg("src", 0)) } else { None };
    if c.wl == "iterate" {
        probe("iterate");
        let (n, size, k) = (c.kn(0) as usize, (c.kn(0) + c.kn(1)) as usize, c.kn(2) as usize);
        let way = PAR_WAYS[c.kn(3) as usize % PAR_WAYS.len()];
        let data = crate::model::items(c.dseed, n, c.elem);
        if n == 0 {
            probe("empty");
        }
        if n == 1 {
            probe("one");
        }
        if size > n {
            probe("partly-filled");
        }
        if k == 1 && n > 50 {
            probe("split-many");
        }
        if c.kn(4) == 1 {
            probe("nested");
        }
        let p = par(c.elem, c.arity, &c.store, "disk");
        let (x, h) = faulty(1, || placed(c.kn(4) == 1, || p.iterate(way, k, &data, size, src)));
        run::checked(n as u64);
        match x {
            Ok(got) => {
                let want: Vec<(usize, Vec<u8>)> = data
                    .chunks(c.elem)
                    .map(|x| x.to_vec())
                    .enumerate()
                    .filter(|(i, _)| match way {
                        "skip" => *i >= k.min(n),
                        "take" => *i < k,
                        "step" => *i % k.max(1) == 0,
                        _ => true,
                    })
                    .map(|(i, x)| (i, x))
                    .collect();
                let mut got = got;
                got.sort();
                // an iterator cannot report an error: only collecting by position notices a missing element
                let strict = matches!(way, "collect" | "collect-val" | "rev" | "rev-val" | "enumerate" | "max-len" | "min-len");
                if got != want && (h == 0 || strict) {
                    let k = got.iter().zip(want.iter()).position(|(a, b)| a != b);
                    violation(class, &format!("{} over a {} store of {} elements (capacity {}) yields {} elements, first difference at {:?}", way, c.store, n, size, got.len(), k));
                }
                if h > 0 {
                    probe("right-despite-fault");
                }
            }
            Err(e) => {
                check!(h > 0, class, "{} over a {} store of {} elements (capacity {}) failed: {:?}", way, c.store, n, size, e);
                probe("read-error-surfaced");
            }
        }
        heal();
        // the same again without faults
        let got = must(class, "iterate again", || p.iterate("collect", k, &data, size, if c.cfg { Some(cfg("again", 0)) } else { None }));
        check!(got.iter().map(|x| x.1.clone()).collect::<Vec<_>>() == data.chunks(c.elem).map(|x| x.to_vec()).collect::<Vec<_>>(), class, "a later iteration is wrong");
        return;
    }
    probe("tree");
    let w = World::seeded(c, c.dseed, "from_par_iter");
    if c.exp >= 19 {
        probe("tree-huge");
    }
    let to = if c.store == "vec" { ["vec", "disk", "vec", "disk"][c.kn(5) as usize % 4] } else { ["vec", "disk", "mmap", "lc"][c.kn(5) as usize % 4] };
    probe(&format!("to-{}", to));
    let way = ["ref", "val", "rev"][c.kn(3) as usize % 3];
    let p = par(c.elem, c.arity, &c.store, to);
    let tc = if to == "lc" || (to != "vec" && c.dseed % 2 == 0) { Some(cfg("tree", 0)) } else { None };
    fs::fs().begin_op(1);
    let x = attempt(|| p.tree_from(way, &w.items, src, tc, &|on| fs::fs().faults_on = on));
    fs::fs().faults_on = false;
    let h = fs::fs().hard_fired_in_op;
    heal();
    let want = if way == "rev" {
        let rev: Vec<u8> = w.items.chunks(c.elem).rev().flatten().copied().collect();
        crate::model::Model::from_base(expected_base("from_par_iter", &rev, c.elem), c.elem, c.arity, height_sensitive(c.elem))
    } else {
        w.m.clone()
    };
    match x {
        Ok(t) => {
            check!(t.root() == want.root(), class, "tree built from a {} store's parallel iterator ({}) into {} has a wrong root", c.store, way, to);
            check!(t.leafs() == want.leafs && t.len() == want.len() && t.row_count() == want.row_count(), class, "tree built from a store's parallel iterator has a wrong shape");
            if to != "lc" {
                let mut a = 0;
                while a < want.len() {
                    let b = (a + 8192).min(want.len());
                    let g = must(class, "read back", || t.read_range(a, b));
                    check!(g == want.range(a, b), class, "nodes {}..{} of the tree built from a store's parallel iterator are wrong", a, b);
                    a = b;
                }
                for i in sample(&mut rng, want.leafs, 3) {
                    let p = must(class, "proof", || t.proof(i));
                    check_proof(class, "tree from a store", &*p, &want, i);
                }
            }
            if h > 0 {
                probe("right-despite-fault");
            }
        }
        Err(e) => {
            check!(h > 0, class, "building from a {} store's parallel iterator into {} failed: {:?}", c.store, to, e);
            probe("read-error-surfaced");
        }
    }
}
