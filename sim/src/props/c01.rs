//! C01: built trees equal the Merkle definition under every schedule.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::RunSpec;
use crate::types::hash_hint;

pub const PROBES: &[&str] = &["built-inside-pool", "concurrent-builders", "size>small-tree", "size>chunk", "size>data-block", "level-cache", "height-sensitive"];

pub fn gen(r: &mut Rng, seed: u64, thorough: bool) -> RunSpec {
    let mut c = base_case(r, "build", &["vec", "disk", "mmap", "lc"], 32768);
    pick_ctor(r, &mut c);
    pick_r(r, &mut c);
    c.clients = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
    c.knob = vec![r.chance(1, 3) as i64];
    let huge = if thorough { 40 } else { 150 };
    if r.chance(1, huge) {
        // crosses the leaf-population block size
        c.elem = 8;
        c.arity = *r.pick(&[2, 8]);
        c.exp = if c.arity == 2 { 19 } else { 6 + (c.arity == 4) as u32 };
        c.ctor = r.pick(&["new", "from_par_iter", "from_par_iter"]).to_string();
        c.store = r.pick(&["vec", "disk", "mmap"]).to_string();
        if c.arity == 8 {
            c.exp = 6;
            c.arity = 8;
        }
        c.arity = 2;
        c.exp = 19;
        c.clients = 1;
    }
    while c.leafs() * c.clients > 70_000 && c.clients > 1 {
        c.clients -= 1;
    }
    let mut s = sched_plan(r);
    if c.leafs() > 100_000 {
        if let crate::sched::Strategy::Random { inv } = &mut s.strategy {
            *inv = (*inv).max(40);
        }
        if let crate::sched::Strategy::Rr { q } = &mut s.strategy {
            *q = (*q).max(31);
        }
    }
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, s, io)
}

pub fn build_verify(class: &str, w: &World, id: &str, rng: &mut Rng, inside: bool, depth: (usize, usize)) {
    let store = w.c.store.as_str();
    let cf = if w.c.cfg || store == "lc" { Some(cfg(id, w.c.r)) } else { None };
    let what = format!("{} {} e{} a{} leafs {} {}", store, w.c.ctor, w.c.elem, w.c.arity, w.m.leafs, if cf.is_some() { "persisted" } else { "temporary" });
    fs::fs().faults_on = true;
    let mut t = placed(inside, || must(class, &format!("build {}", what), || w.build(cf)));
    fs::fs().faults_on = false;
    if store == "lc" {
        probe("level-cache");
        let base = dir().join(format!("base-{}", id));
        put_file(&base, w.base());
        must(class, "set reader", || t.set_reader(&base));
        verify_cached(class, &what, &*t, w, w.c.r, rng, Depth { nodes: depth.0 / 2, proofs: depth.1 / 2 + 1 });
    } else {
        verify_full(class, &what, &*t, w, rng, Depth { nodes: depth.0, proofs: depth.1 });
    }
    if let (true, true) = (w.c.cfg, store != "vec") {
        let want = if store == "lc" { w.file(Kind::V2(w.c.r)) } else { w.file(Kind::Full) };
        let got = get_file(&path_of(id)).unwrap_or_default();
        check!(got == want, class, "{}: file content differs from the tree ({} bytes, expected {})", what, got.len(), want.len());
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let inside = c.kn(0) == 1;
    if inside {
        probe("built-inside-pool");
    }
    if c.leafs() > 1024 {
        probe("size>small-tree");
    }
    if c.leafs() > 4096 {
        probe("size>chunk");
    }
    if c.leafs() > 262144 {
        probe("size>data-block");
    }
    if c.elem == 20 {
        probe("height-sensitive");
    }
    hash_hint();
    let ws: Vec<World> = (0..c.clients).map(|k| World::seeded(c, c.dseed.wrapping_add(k as u64 * 77), &c.ctor)).collect();
    if c.clients == 1 {
        build_verify("wrong-tree", &ws[0], "t0", &mut rng_of(c, 1), inside, (24, 24));
    } else {
        probe("concurrent-builders");
        let v = ws
            .iter()
            .enumerate()
            .map(|(k, w)| {
                let c = c.clone();
                Box::new(move || build_verify("wrong-tree", w, &format!("t{}", k), &mut rng_of(&c, k as u64 + 1), inside, (8, 8))) as Box<dyn FnOnce() + Send>
            })
            .collect();
        clients("wrong-tree", v);
    }
}
