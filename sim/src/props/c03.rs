//! C03: proofs from a partially cached tree equal proofs from the full tree.
use super::c02::open_cached;
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::RunSpec;

pub const PROBES: &[&str] = &["compact-v1", "compact-v2", "direct-lc", "full-every-r", "reopen-set-reader", "reopen-source", "reopen-reader-offset", "cached-proof-beyond-file-refused", "compound"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let wl = *r.pick(&["full", "compact", "compact", "compact", "direct"]);
    let mut c = base_case(r, wl, &[if wl == "direct" { "lc" } else { "disk" }], 32768);
    pick_ctor(r, &mut c);
    c.cfg = true;
    pick_r(r, &mut c);
    c.knob = vec![r.below(3) as i64, r.chance(1, 4) as i64];
    c.clients = if r.chance(1, 4) && c.leafs() <= 4096 { 2 } else { 1 };
    let sp = sched_plan(r);
    let io = if r.chance(1, 2) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

fn one(w: &World, id: &str, rng: &mut Rng) {
    let c = &w.c;
    let (leafs, len) = (w.m.leafs, w.m.len());
    let d = |n: usize| Depth { nodes: 6, proofs: n };
    let class = "cached-proof";
    match c.wl.as_str() {
        "full" => {
            probe("full-every-r");
            fs::fs().faults_on = true;
            let t = must(class, "build", || w.build(Some(cfg(id, c.r))));
            let k = if leafs <= 256 { leafs } else { 12 };
            for i in sample(rng, leafs, k) {
                for x in (0..=w.m.max_discard()).map(Some).chain([None, Some(c.r), Some(1000)]) {
                    let p = must(class, &format!("gen_cached_proof({}, {:?}) of a full tree with {} leafs arity {}", i, x, leafs, c.arity), || t.cached_proof(i, x));
                    check_proof(class, &format!("full tree, rows {:?}", x), &*p, &w.m, i);
                }
            }
            check!(attempt(|| t.cached_proof(leafs, None)).is_err(), class, "cached proof past the last leaf succeeded");
            fs::fs().faults_on = false;
        }
        "compact" => {
            fs::fs().faults_on = true;
            let mut t = must(class, "build", || w.build(Some(cfg(id, c.r))));
            let ok = must(class, &format!("compact v{} r{}", c.ver, c.r), || t.compact(cfg(id, c.r), c.ver));
            check!(ok, class, "compaction reported false");
            drop(t);
            fs::fs().faults_on = false;
            let got = get_file(&path_of(id)).unwrap_or_default();
            let want = w.file(kind(c.ver, c.r));
            check!(got == want, class, "compacted file v{} r{} differs from the retained rows ({} bytes, expected {})", c.ver, c.r, got.len(), want.len());
            fs::fs().faults_on = true;
            let base = dir().join(format!("base-{}", id));
            let mut lw = World::seeded(c, c.dseed, &c.ctor);
            lw.c.store = "lc".into();
            let t = if c.ver == 1 {
                probe("compact-v1");
                must(class, "open v1", || lw.combo().open(leafs, len, &cfg(id, c.r)))
            } else {
                probe("compact-v2");
                match c.kn(0) {
                    0 => {
                        probe("reopen-reader-offset");
                        let off = rng.below(3) * 13;
                        let mut b = vec![0xCC; off];
                        b.extend_from_slice(w.base());
                        put_file(&base, &b);
                        must(class, "open v2 with reader", || lw.lc().open_with_reader(leafs, len, &cfg(id, c.r), &base, off))
                    }
                    1 => {
                        probe("reopen-source");
                        if c.clients > 1 {
                            put_file(&base, w.base());
                            must(class, "open v2 with reader", || lw.lc().open_with_reader(leafs, len, &cfg(id, c.r), &base, 0))
                        } else {
                            crate::source::set(w.base().to_vec());
                            must(class, "open v2 with source", || lw.lc().open_with_source(leafs, len, &cfg(id, c.r), 0))
                        }
                    }
                    _ => {
                        probe("reopen-set-reader");
                        put_file(&base, w.base());
                        must(class, "open v2 with reader", || lw.lc().open_then_set(leafs, len, &cfg(id, c.r), &base, 0))
                    }
                }
            };
            let n = if leafs <= 64 { leafs } else { 16 };
            verify_cached(class, &format!("compacted v{} r{}", c.ver, c.r), &*t, &lw, c.r, rng, d(n));
            fs::fs().faults_on = false;
        }
        _ => {
            probe("direct-lc");
            fs::fs().faults_on = true;
            let t = placed(c.kn(1) == 1, || open_cached(w, "direct-lc", id));
            let n = if leafs <= 64 { leafs } else { 16 };
            verify_cached(class, &format!("built cached r{}", c.r), &*t, w, c.r, rng, d(n));
            fs::fs().faults_on = false;
        }
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let ws: Vec<World> = (0..c.clients).map(|k| World::seeded(c, c.dseed.wrapping_add(k as u64), &c.ctor)).collect();
    if c.clients == 1 {
        one(&ws[0], "t0", &mut rng_of(c, 1));
        return;
    }
    let v = ws
        .iter()
        .enumerate()
        .map(|(k, w)| {
            let c = c.clone();
            Box::new(move || one(w, &format!("t{}", k), &mut rng_of(&c, k as u64 + 1))) as Box<dyn FnOnce() + Send>
        })
        .collect();
    clients("cached-proof", v);
}
