//! C20: an interrupted build or compaction is never mistaken for a finished one.
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{self, RunSpec};
use crate::tree::*;
use merkletree::store::StoreConfig;
use std::path::PathBuf;

pub const PROBES: &[&str] = &[
    "killed-while-building", "power-lost-while-building", "killed-while-compacting", "power-lost-while-compacting", "killed-after-build", "power-lost-after-sync", "after-compaction", "build-error", "compact-error", "refused", "opened-right",
    "nothing-left", "compacted-size-image", "cut-size-image", "full-size-image", "recovered", "lc-build", "mmap-build", "opened-as-v1", "opened-as-v2", "opened-as-full",
];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let wl = *r.pick(&["build", "build", "build", "compact", "compact", "compact", "build-error", "compact-error"]);
    let stores: &[&str] = if wl.starts_with("compact") { &["disk"] } else { &["disk", "disk", "mmap", "lc"] };
    let mut c = base_case(r, wl, stores, 4096);
    c.cfg = true;
    pick_ctor(r, &mut c);
    pick_r(r, &mut c);
    c.knob = vec![r.below(4) as i64];
    let sp = sched_plan(r);
    let io = if wl.ends_with("error") {
        hard(r, if wl == "build-error" { ALL_IO } else { &[Class::Open, Class::Read, Class::Write, Class::Trunc, Class::Fsync, Class::Stat, Class::Copy] })
    } else {
        let mut io = if r.chance(1, 2) { benign(r) } else { no_faults(r) };
        crashy(r, &mut io, 6);
        io
    };
    spec("", seed, c, sp, io)
}

/// Does the tree answer anything wrongly? Errors are fine.
fn wrong(t: &dyn DynTree, w: &World, form: &str, rng: &mut Rng) -> Option<String> {
    let m = &w.m;
    if t.root() != m.root() {
        return Some("its root is wrong".into());
    }
    if t.leafs() != m.leafs || t.len() != m.len() {
        return Some(format!("it has {} leafs and length {}", t.leafs(), t.len()));
    }
    let mut a = 0;
    while a < m.len() {
        let b = (a + 64).min(m.len());
        match attempt(|| t.read_range(a, b)) {
            Ok(g) if g == m.range(a, b) => {}
            _ => {
                for i in a..b {
                    if let Ok(g) = attempt(|| t.read_at(i)) {
                        if g != m.at(i) {
                            return Some(format!("node {} of {} reads wrong", i, m.len()));
                        }
                    }
                }
            }
        }
        a = b;
    }
    for i in sample(rng, m.leafs, 4) {
        let ps = [attempt(|| t.proof(i)), if form_store(form) == "mmap" { Err(Fail::Err("n/a".into())) } else { attempt(|| t.cached_proof(i, Some(w.c.r))) }];
        for p in ps.into_iter().flatten() {
            if let Some(d) = proof_diff(&*p, m, i) {
                return Some(d);
            }
        }
    }
    None
}

/// Where an interrupted operation left things.
#[derive(Clone, Copy, PartialEq, Debug)]
enum When {
    Building,
    Compacting,
    /// must be openable and right
    Done,
}

/// Open what is left by every route and judge it. Returns whether anything opened.
fn judge(w: &World, d: &PathBuf, when: When, how: &str, rng: &mut Rng) {
    let class = "interrupted";
    let c = &w.c;
    let (n, full) = (c.elem, w.m.len() * c.elem);
    let path = StoreConfig::data_path(d, "t");
    let left = get_file(&path);
    let size = left.as_ref().map(|b| b.len());
    let v2 = w.file(Kind::V2(c.r)).len();
    let v1 = w.file(Kind::V1(c.r)).len();
    match size {
        None => probe("nothing-left"),
        Some(s) if s == full => probe("full-size-image"),
        Some(s) if s == v1 || s == v2 => probe("compacted-size-image"),
        _ => probe("cut-size-image"),
    }
    let forms: &[&str] = match (c.wl.starts_with("compact"), c.store.as_str()) {
        (true, _) => &["disk", "disk-path", "disk-config", "lc-v1", "lc-v1-config", "lc-v2", "lc-v2-set", "lc-v2-source"],
        (_, "disk") => &["disk", "disk-path", "disk-config", "rebuild", "mmap"],
        (_, "mmap") => &["mmap", "mmap-config", "rebuild", "disk"],
        _ => &["lc-v1", "lc-v1-config", "lc-v2", "lc-v2-set", "lc-v2-source"],
    };
    let mut opened = 0;
    for form in forms {
        // routes that create need a file to find
        if left.is_none() && (form.ends_with("config") || *form == "rebuild") {
            continue;
        }
        // this route asks the caller to know that the file holds cached rows only
        if *form == "lc-v2-set" && size != Some(v2) {
            continue;
        }
        place_base(w, form, d, "t");
        let t = if *form == "rebuild" { attempt(|| w.build(Some(StoreConfig::new(d, "t", c.r)))) } else { attempt(|| open_form(w, form, d, "t")) };
        run::checked(1);
        let after = get_file(&path);
        match t {
            Err(Fail::Panic(m)) if *form != "rebuild" => violation(class, &format!("{}: opening as {} panicked: {}", how, form, m)),
            Err(_) => probe("refused"),
            Ok(t) => {
                probe(match form_kind(form, c.r) {
                    Kind::Full => "opened-as-full",
                    Kind::V1(_) => "opened-as-v1",
                    Kind::V2(_) => "opened-as-v2",
                });
                match wrong(&*t, w, form, rng) {
                    None => {
                        opened += 1;
                        probe("opened-right");
                    }
                    Some(m) => {
                        let msg = format!("{} ({}, {} leafs, arity {}, rows discarded {}): what is left opens as {}, but {}", how, c.store, w.m.leafs, c.arity, c.r, form, m);
                        // the recorded defect: nothing in a full-size file tells an unfinished build (nodes
                        // not written yet are zero) or a compaction in progress from a finished full tree
                        let b = left.as_ref().unwrap();
                        let v2b = w.file(Kind::V2(c.r));
                        let zero_or = |want: &[u8]| b.len() == want.len() && b.iter().zip(want).all(|(x, y)| x == y || *x == 0);
                        let as_full = b.len() == full && form_kind(form, c.r).len(w) == full;
                        let known = match when {
                            When::Building if c.store == "lc" => {
                                // rows above the first retained one are still being built in the cache-size file
                                let row = (w.m.rows.get(c.r + 2).copied().unwrap_or(w.m.len()) - w.m.rows[c.r + 1]) * n;
                                let as_v2 = matches!(form_kind(form, c.r), Kind::V2(_)) && zero_or(&v2b) && b[..row] == v2b[..row];
                                if as_v2 || as_full && (zero_or(&w.m.nodes) || mixed(b, &w.m.nodes, &v2b, 0)) {
                                    Some("C20-unfinished-cached-build-opens")
                                } else {
                                    None
                                }
                            }
                            When::Building if as_full && zero_or(&w.m.nodes) => Some("C20-unfinished-build-opens-as-full"),
                            When::Compacting if as_full && mixed(b, &w.m.nodes, &v2b, if c.ver == 1 { w.m.leafs * n } else { 0 }) => Some("C20-half-compacted-file-opens-as-full"),
                            _ => None,
                        };
                        match known {
                            Some(id) => run::known_or_violation(id, class, &msg),
                            None => violation(class, &msg),
                        }
                    }
                }
            }
        }
        if *form != "rebuild" {
            check!(after == left, class, "{}: opening as {} changed what was left", how, form);
        }
    }
    if when == When::Done {
        check!(opened > 0, class, "{} ({}, {} leafs, arity {}, rows discarded {}): the finished file does not open", how, c.store, w.m.leafs, c.arity, c.r);
    }
}
/// Every byte is that of the full tree, or that of the moved rows at their new place, or was never written.
fn mixed(b: &[u8], full: &[u8], moved: &[u8], at: usize) -> bool {
    b.iter().enumerate().all(|(i, x)| *x == full[i] || *x == 0 || (i >= at && i - at < moved.len() && *x == moved[i - at]))
}
impl Kind {
    fn len(&self, w: &World) -> usize {
        w.file(*self).len()
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "interrupted";
    let mut rng = rng_of(c, 20);
    let w = World::new(c);
    let comp = c.wl.starts_with("compact");
    match c.store.as_str() {
        "lc" => probe("lc-build"),
        "mmap" => probe("mmap-build"),
        _ => {}
    }
    if c.wl.ends_with("error") {
        let r = if comp {
            let mut t = must(class, "build", || w.build(Some(cfg("t", c.r))));
            let (r, h) = faulty(1, || t.compact(cfg("t", c.r), c.ver));
            heal();
            check!(r.is_ok() || h > 0, class, "compaction failed although nothing was wrong");
            r.map(|_| ())
        } else {
            let (r, h) = faulty(1, || w.build(Some(cfg("t", c.r))));
            heal();
            check!(r.is_ok() || h > 0, class, "build failed although nothing was wrong");
            r.map(|_| ())
        };
        let when = match (&r, comp) {
            (Ok(_), _) => When::Done,
            (_, true) => When::Compacting,
            _ => When::Building,
        };
        if when != When::Done {
            probe(if comp { "compact-error" } else { "build-error" });
        }
        judge(&w, &dir(), when, &format!("{} {}", c.wl, if r.is_ok() { "(succeeded)" } else { "(failed)" }), &mut rng);
        return;
    }
    fs::fs().faults_on = true;
    if comp {
        // a finished, durable full tree
        put_file(&path_of("t"), &w.file(Kind::Full));
        fs::fs().start_crash_tracking();
        fs::fs().tag = 3;
        let mut t = must(class, "open", || open_form(&w, "disk", &dir(), "t"));
        must(class, "compact", || t.compact(cfg("t", c.r), c.ver));
        fs::fs().tag = 4;
        fs::fs().crash_now(true);
        fs::fs().crash_now(false);
    } else {
        fs::fs().start_crash_tracking();
        fs::fs().tag = 0;
        let t = must(class, "build", || w.build(Some(cfg("t", c.r))));
        fs::fs().tag = 1;
        fs::fs().crash_now(false);
        if c.kn(0) > 0 {
            // another crash while the tree is just being held
            fs::fs().crash_point();
            must(class, "sync", || t.sync());
            fs::fs().tag = 2;
            fs::fs().crash_now(true);
        }
    }
    fs::fs().faults_on = false;
    fs::fs().crash_on = false;
    let snaps = std::mem::take(&mut fs::fs().snaps);
    for (k, sn) in snaps.iter().enumerate() {
        let (when, how) = match (sn.tag, sn.power) {
            (0, false) => (When::Building, "killed-while-building"),
            (0, true) => (When::Building, "power-lost-while-building"),
            (1, false) => (When::Done, "killed-after-build"),
            // unsynced: nothing is promised
            (1, true) => continue,
            (2, _) => (When::Done, "power-lost-after-sync"),
            (3, false) => (When::Compacting, "killed-while-compacting"),
            (3, true) => (When::Compacting, "power-lost-while-compacting"),
            _ => (When::Done, "after-compaction"),
        };
        probe(how);
        let d = image_dir(k, &sn.files);
        judge(&w, &d, when, how, &mut rng);
        if c.kn(0) == 2 {
            // start over: delete and build again
            let _ = attempt(|| w.combo().delete(cfg_at(&d, "t", c.r)));
            let t = must(class, &format!("{}: delete and build again", how), || w.build(Some(cfg_at(&d, "t", c.r))));
            check!(t.root() == w.m.root(), class, "{}: the tree built afterwards is wrong", how);
            probe("recovered");
        }
    }
}
