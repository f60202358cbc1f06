//! C05: a failing disk is reported; it never turns into a wrong answer.
use super::c02::{read_eval, READS};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{Op, RunSpec};

pub const PROBES: &[&str] = &["build-failed", "build-survived", "open-failed", "open-survived", "read-failed", "read-survived", "compact-failed", "compact-survived", "rebuilt-same-id", "rebuilt-fresh-id", "concurrent-readers", "compound"];

/// few faults, early, and few switches
fn probe_huge(sp: &mut crate::sched::SchedPlan, io: &mut crate::fs::IoPlan, r: &mut Rng) {
    sp.fine = false;
    if let crate::sched::Strategy::Random { inv } = &mut sp.strategy {
        *inv = (*inv).max(40);
    }
    if let crate::sched::Strategy::Rr { q } = &mut sp.strategy {
        *q = (*q).max(31);
    }
    io.gen.benign = false;
    io.gen.sticky_pct = 0;
    io.gen.budget = 1;
    for x in io.gen.rates.iter_mut() {
        x.1 = *r.pick(&[1, 1, 2, 3, 50]);
    }
}
pub fn gen(r: &mut Rng, seed: u64, thorough: bool) -> RunSpec {
    let wl = *r.pick(&["build", "build", "build", "open", "read", "read", "compact"]);
    let max = if r.chance(1, 30) { 32768 } else { 4096 };
    let mut c = base_case(r, wl, &["disk", "disk", "mmap", "lc"], max);
    c.knob = vec![r.chance(1, 2) as i64, r.chance(1, 4) as i64];
    let mut classes: Vec<Class> = ALL_IO.to_vec();
    match wl {
        "build" => {
            if !thorough && c.leafs() > 4096 {
                c.exp = 2;
            }
            pick_ctor(r, &mut c);
            pick_r(r, &mut c);
            if r.chance(1, if thorough { 30 } else { 100 }) {
                // more leaves than one population block takes
                c.elem = 8;
                c.arity = 2;
                c.exp = 19;
                c.ctor = "from_par_iter".into();
                c.r = 0;
                c.cfg |= c.store == "lc";
                classes = vec![if c.store == "mmap" { Class::Mmap } else { Class::Write }];
            }
        }
        "open" | "read" => {
            let f = pick_form(r, &mut c, FORMS);
            c.ctor = f;
            c.clients = if wl == "read" && r.chance(1, 2) { r.range(2, 3) } else { 1 };
            for _ in 0..r.range(2, 12) {
                c.ops.push(op(*r.pick(READS), r.next() as u32 as usize, r.next() as u32 as usize, r.below(c.clients) as u64));
            }
            classes = if wl == "open" { vec![Class::Open, Class::Stat, Class::Read, Class::Mmap, Class::Source] } else { vec![Class::Read, Class::Source, Class::Read, Class::Mmap, Class::Open] };
        }
        _ => {
            c.store = "disk".into();
            pick_r(r, &mut c);
            classes = vec![Class::Open, Class::Read, Class::Trunc, Class::Fsync, Class::Stat, Class::Copy, Class::Copy, Class::Write];
        }
    }
    let mut sp = sched_plan(r);
    let mut io = hard(r, &classes);
    if c.leafs() > 100_000 {
        probe_huge(&mut sp, &mut io, r);
    }
    spec("", seed, c, sp, io)
}

fn total_hard() -> usize {
    fs::fs().fired.iter().filter(|f| !fs::is_benign(f.class, f.kind)).count()
}
/// The verdict on one faulted operation. None: it reported failure.
pub fn judge<T>(class: &str, what: &str, r: std::result::Result<T, Fail>, hard: u32) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(Fail::Panic(m)) => violation(class, &format!("{}: panicked instead of reporting the fault: {}", what, m)),
        Err(Fail::Err(e)) => {
            check!(hard > 0, class, "{}: failed although nothing was wrong: {}", what, e);
            None
        }
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "disk-fault";
    let mut rng = rng_of(c, 5);
    match c.wl.as_str() {
        "build" => {
            let w = World::new(c);
            let persist = c.cfg || c.store == "lc";
            let mk = |id: &str| if persist { Some(cfg(id, c.r)) } else { None };
            let what = format!("build {} {} of {} leafs", c.store, c.ctor, w.m.leafs);
            let inside = c.kn(1) == 1;
            let (r, h) = faulty(1, || placed(inside, || w.build(mk("t"))));
            heal();
            match judge(class, &what, r, h) {
                Some(t) => {
                    if h > 0 {
                        probe("build-survived");
                    }
                    verify_built(class, &format!("{} (survived {} faults)", what, h), t, &w, "t", &mut rng);
                }
                None => {
                    probe("build-failed");
                    // the same identifier after cleaning up, or a fresh one
                    let id = if persist && c.kn(0) == 1 {
                        if get_file(&path_of("t")).is_some() {
                            must(class, "delete after a failed build", || w.combo().delete(cfg("t", c.r)));
                        }
                        probe("rebuilt-same-id");
                        "t"
                    } else {
                        probe("rebuilt-fresh-id");
                        "u"
                    };
                    let t = must(class, &format!("{}: again once the fault is gone", what), || w.build(mk(id)));
                    verify_built(class, &format!("{} after a failed one", what), t, &w, id, &mut rng);
                }
            }
        }
        "open" => {
            let form = c.ctor.clone();
            let w = World::seeded(c, c.dseed, "new");
            place_form(&w, &form, &dir(), "t");
            let before = get_file(&path_of("t"));
            let what = format!("open {} of {} leafs r{}", form, w.m.leafs, c.r);
            let (r, h) = faulty(1, || open_form(&w, &form, &dir(), "t"));
            heal();
            match judge(class, &what, r, h) {
                Some(t) => {
                    if h > 0 {
                        probe("open-survived");
                    }
                    verify_form(class, &format!("{} (survived {} faults)", what, h), &*t, &w, &form, &mut rng, Depth { nodes: 4, proofs: 4 });
                }
                None => probe("open-failed"),
            }
            check!(get_file(&path_of("t")) == before, class, "{}: the failed open changed the file", what);
            let t = must(class, &format!("{}: again once the fault is gone", what), || open_form(&w, &form, &dir(), "t"));
            verify_form(class, &what, &*t, &w, &form, &mut rng, Depth { nodes: 4, proofs: 4 });
        }
        "read" => {
            let form = c.ctor.clone();
            let w = World::seeded(c, c.dseed, "new");
            place_form(&w, &form, &dir(), "t");
            let t = must(class, "open", || open_form(&w, &form, &dir(), "t"));
            let one = |o: &Op| {
                let (what, r) = read_eval(&*t, &w, o);
                match r {
                    Ok(None) => {
                        if total_hard() > 0 {
                            probe("read-survived");
                        }
                    }
                    Ok(Some(m)) => violation(class, &format!("{} {}: wrong answer under a disk fault: {}", form, what, m)),
                    Err(Fail::Panic(m)) => violation(class, &format!("{} {}: panicked instead of reporting the fault: {}", form, what, m)),
                    Err(Fail::Err(e)) => {
                        probe("read-failed");
                        check!(total_hard() > 0, class, "{} {}: failed although nothing was wrong: {}", form, what, e);
                    }
                }
            };
            fs::fs().begin_op(1);
            fs::fs().faults_on = true;
            if c.clients > 1 {
                probe("concurrent-readers");
                let one = &one;
                clients(class, (0..c.clients).map(|k| Box::new(move || c.ops.iter().filter(|o| o.c == k as u64).for_each(|o| one(o))) as Box<dyn FnOnce() + Send>).collect());
            } else {
                for (k, o) in c.ops.iter().enumerate() {
                    fs::fs().begin_op(k as u32 + 1);
                    one(o);
                }
            }
            heal();
            verify_form(class, &format!("{} after the faults have gone", form), &*t, &w, &form, &mut rng, Depth { nodes: 4, proofs: 4 });
        }
        _ => {
            let w = World::seeded(c, c.dseed, "new");
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            let what = format!("compact v{} r{} of {} leafs", c.ver, c.r, w.m.leafs);
            let (r, h) = faulty(1, || t.compact(cfg("t", c.r), c.ver));
            heal();
            match judge(class, &what, r, h) {
                Some(b) => {
                    check!(b, class, "{}: reported false", what);
                    if h > 0 {
                        probe("compact-survived");
                    }
                }
                None => {
                    probe("compact-failed");
                    drop(t);
                    must(class, "delete after a failed compaction", || w.combo().delete(cfg("t", c.r)));
                    t = must(class, "rebuild after a failed compaction", || w.build(Some(cfg("t", c.r))));
                    let ok = must(class, &format!("{}: again once the fault is gone", what), || t.compact(cfg("t", c.r), c.ver));
                    check!(ok, class, "{}: reported false", what);
                }
            }
            drop(t);
            let got = get_file(&path_of("t")).unwrap_or_default();
            check!(got == w.file(kind(c.ver, c.r)), class, "{}: the compacted file has wrong content", what);
            let form = if c.ver == 1 { "lc-v1" } else { "lc-v2" };
            place_base(&w, form, &dir(), "t");
            let t = must(class, "open compacted", || open_form(&w, form, &dir(), "t"));
            verify_form(class, &what, &*t, &w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
        }
    }
}
/// A tree that a build reported as good.
pub fn verify_built(class: &str, what: &str, t: crate::tree::Tree, w: &World, id: &str, rng: &mut Rng) {
    let mut t = t;
    if w.c.store == "lc" {
        let base = dir().join(format!("base-{}", id));
        put_file(&base, w.base());
        must(class, "set reader", || t.set_reader(&base));
        verify_cached(class, what, &*t, w, w.c.r, rng, Depth { nodes: 4, proofs: 4 });
        check!(get_file(&path_of(id)) == Some(w.file(Kind::V2(w.c.r))), class, "{}: wrong file", what);
    } else {
        verify_full(class, what, &*t, w, rng, Depth { nodes: 4, proofs: 4 });
        if w.c.cfg && w.c.store != "vec" {
            check!(get_file(&path_of(id)) == Some(w.file(Kind::Full)), class, "{}: wrong file", what);
        }
    }
}
