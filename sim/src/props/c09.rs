//! C09: a completed compaction is durable and loses nothing it promised to keep.
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::RunSpec;

pub const PROBES: &[&str] = &["power-loss-after-compaction", "v1", "v2", "refused", "refused-all-rows", "refused-not-disk", "failed-untouched", "later-work", "large"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let wl = *r.pick(&["durable", "durable", "durable", "refused", "failed", "failed"]);
    let mut c = base_case(r, wl, &["disk"], 8192);
    pick_ctor(r, &mut c);
    c.cfg = true;
    pick_r(r, &mut c);
    let sp = sched_plan(r);
    let io = match wl {
        "durable" => {
            let mut io = if r.chance(1, 2) { benign(r) } else { no_faults(r) };
            crashy(r, &mut io, 6);
            io
        }
        "failed" => hard(r, &[Class::Open, Class::Read, Class::Trunc, Class::Fsync, Class::Stat, Class::Copy, Class::Write]),
        _ => {
            c.store = r.pick(&["disk", "disk", "lc"]).to_string();
            if c.store == "lc" {
                let f = pick_form(r, &mut c, &["lc-v1", "lc-v2", "lc-v2-set"]);
                c.ctor = f;
            }
            no_faults(r)
        }
    };
    c.knob = vec![r.below(4) as i64];
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "compaction";
    let mut rng = rng_of(c, 9);
    let form = if c.ver == 1 { "lc-v1" } else { "lc-v2" };
    probe(if c.ver == 1 { "v1" } else { "v2" });
    let what = format!("compaction v{} r{} of {} leafs arity {}", c.ver, c.r, c.leafs(), c.arity);
    match c.wl.as_str() {
        "durable" => {
            let w = World::new(c);
            if w.m.leafs > 1024 {
                probe("large");
            }
            fs::fs().faults_on = true;
            fs::fs().tag = 0;
            // tracking from the start: nothing is durable unless the library made it so
            fs::fs().start_crash_tracking();
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            fs::fs().tag = 3;
            let ok = must(class, &what, || t.compact(cfg("t", c.r), c.ver));
            check!(ok, class, "{}: reported false", what);
            fs::fs().tag = 4;
            fs::fs().crash_now(true);
            let want = w.file(kind(c.ver, c.r));
            let got = get_file(&path_of("t")).unwrap_or_default();
            check!(got == want, class, "{}: the file holds {} bytes, expected {}, or differs in content", what, got.len(), want.len());
            if c.kn(0) == 1 {
                // work that follows must not endanger it
                probe("later-work");
                let _ = attempt(|| t.sync());
                drop(t);
                let w2 = World::seeded(c, 5, "new");
                let _ = must(class, "another build", || w2.build(Some(cfg("other", 0))));
                fs::fs().crash_now(true);
            }
            fs::fs().faults_on = false;
            fs::fs().crash_on = false;
            let snaps = std::mem::take(&mut fs::fs().snaps);
            for (k, sn) in snaps.iter().enumerate().filter(|x| x.1.tag == 4) {
                probe("power-loss-after-compaction");
                let d = image_dir(k, &sn.files);
                place_base(&w, form, &d, "t");
                let what = format!("{} then {}", what, if sn.power { "power loss" } else { "kill" });
                let got = get_file(&merkletree::store::StoreConfig::data_path(&d, "t"));
                check!(got.is_some(), class, "{}: the file is gone", what);
                check!(got.unwrap() == want, class, "{}: the file no longer holds the compacted data", what);
                let t = must(class, &what, || open_form(&w, form, &d, "t"));
                verify_form(class, &what, &*t, &w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
            }
        }
        "refused" => {
            probe("refused");
            if c.store == "lc" {
                probe("refused-not-disk");
                let w = World::seeded(c, c.dseed, "new");
                let f = c.ctor.clone();
                place_form(&w, &f, &dir(), "t");
                let before = get_file(&path_of("t"));
                let mut t = must(class, "open", || open_form(&w, &f, &dir(), "t"));
                let r = attempt(|| t.compact(cfg("t", c.r), c.ver));
                check!(!matches!(r, Ok(true)), class, "a partially cached tree accepted compaction");
                check!(get_file(&path_of("t")) == before, class, "refused compaction changed the file");
                verify_form(class, "after a refused compaction", &*t, &w, &f, &mut rng, Depth { nodes: 4, proofs: 4 });
                return;
            }
            let w = World::new(c);
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            let before = get_file(&path_of("t"));
            // discarding every row but the base (or more) cannot be done
            probe("refused-all-rows");
            let r = w.m.max_discard() + 1 + rng.below(3);
            let e = attempt(|| t.compact(cfg("t", r), c.ver));
            check!(!matches!(e, Ok(true)), class, "compaction discarding {} of {} rows succeeded", r, w.m.row_count());
            if matches!(e, Err(Fail::Panic(_))) {
                violation(class, &format!("compaction discarding {} rows panicked", r));
            }
            check!(get_file(&path_of("t")) == before, class, "refused compaction changed the file");
            verify_full(class, "after a refused compaction", &*t, &w, &mut rng, Depth { nodes: 6, proofs: 6 });
            // a file that is not there
            let e = attempt(|| t.compact(cfg("nothere", c.r), c.ver));
            check!(e.is_err(), class, "compaction of a missing file succeeded");
            check!(get_file(&path_of("t")) == before, class, "failed compaction changed the file");
            verify_full(class, "after a compaction of a missing file", &*t, &w, &mut rng, Depth { nodes: 6, proofs: 6 });
            // and the sane request still works
            must(class, &what, || t.compact(cfg("t", c.r), c.ver));
            check!(get_file(&path_of("t")) == Some(w.file(kind(c.ver, c.r))), class, "{}: wrong file after earlier refusals", what);
        }
        _ => {
            let w = World::new(c);
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            let before = get_file(&path_of("t"));
            let (r, h) = faulty(1, || t.compact(cfg("t", c.r), c.ver));
            heal();
            match r {
                Ok(ok) => {
                    check!(ok, class, "{}: reported false", what);
                    check!(get_file(&path_of("t")) == Some(w.file(kind(c.ver, c.r))), class, "{}: succeeded under {} faults with wrong content", what, h);
                }
                Err(Fail::Panic(p)) => violation(class, &format!("{}: panicked: {}", what, p)),
                Err(Fail::Err(e)) => {
                    check!(h > 0, class, "{}: failed although nothing was wrong: {}", what, e);
                    if get_file(&path_of("t")) == before {
                        probe("failed-untouched");
                        verify_full(class, &format!("{}: failed before changing anything", what), &*t, &w, &mut rng, Depth { nodes: 6, proofs: 6 });
                        must(class, &format!("{}: again once the fault is gone", what), || t.compact(cfg("t", c.r), c.ver));
                        check!(get_file(&path_of("t")) == Some(w.file(kind(c.ver, c.r))), class, "{}: retried compaction gave a wrong file", what);
                    }
                }
            }
        }
    }
}
