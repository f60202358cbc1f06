//! C12: a failing leaf source aborts the build and its first error is returned.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::RunSpec;
use crate::tree::*;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const PROBES: &[&str] = &["error-returned", "error-first", "error-last", "error-late", "second-error-ignored", "short-source", "long-source", "unusable-count", "unusable-again", "odd-shape", "odd-arity", "wrong-node-count", "ragged-bytes", "no-count", "honest", "rebuilt-same-id", "rebuilt-fresh-id", "batch-boundary", "concurrent-builder", "lie-panicked"];

pub fn gen(r: &mut Rng, seed: u64, thorough: bool) -> RunSpec {
    let mut c = base_case(r, "source", &["vec", "disk", "mmap", "lc"], 4096);
    if c.store == "lc" {
        c.cfg = true;
    }
    pick_r(r, &mut c);
    if r.chance(1, 12) {
        // no source at fault: a number of leaves or an arity that makes no tree, through any constructor
        c.wl = "shape".into();
        c.ctor = r.pick(&["new", "from_data", "try_from_iter", "from_par_iter", "from_byte_slice", "from_tree_slice", "from_data_store"]).to_string();
        let p2 = 1usize << r.range(0, 9);
        let cnt = *r.pick(&[p2, p2, p2, 0, 1, 3, p2 + 1, p2.max(2) - 1]);
        c.knob = vec![cnt as i64, if r.chance(1, 3) { *r.pick(&[0, 1, 1, 3, 6]) } else { -1 }, *r.pick(&[0, 0, 0, 1, -1, 2, -2, 1 << 20]), if r.chance(1, 3) { 1 + r.below(1000) as i64 } else { 0 }];
        c.clients = 1;
        let sp = sched_plan(r);
        let io = no_faults(r);
        return spec("", seed, c, sp, io);
    }
    let mut n = c.leafs();
    let mode = *r.pick(&["err", "err", "err", "err", "short", "long", "odd", "none", "ok"]);
    if r.chance(1, if thorough { 60 } else { 250 }) && c.store != "lc" {
        // across the internal population batch
        c.elem = 8;
        c.arity = 2;
        c.exp = 19;
        c.r = 0;
        n = c.leafs();
    }
    let mut announce = n as i64;
    let mut yields = n;
    let mut errs = vec![];
    match mode {
        "err" => {
            let p = match r.below(4) {
                0 => 0,
                1 => n - 1,
                _ if n > 300_000 => *r.pick(&[262_143, 262_144, 262_145, n - 1, 300_000]),
                _ => r.below(n),
            };
            errs.push(p);
            for _ in 0..r.below(3) {
                errs.push(p + r.below(n - p));
            }
        }
        "short" => yields = r.below(n),
        "long" => {
            let k = if r.chance(1, 2) { 3 } else { n };
            yields = n + 1 + r.below(k);
        }
        "odd" => {
            let x = *r.pick(&[0, 1, n + 1, n - 1, 3, n * 2 - 1, n / 2 + 1, 2, n * 2, n * 2]);
            announce = x as i64;
            yields = x;
        }
        "none" => announce = -1,
        _ => {}
    }
    if mode != "err" && r.chance(1, 4) && yields > 0 {
        errs.push(r.below(yields));
    }
    c.wl = mode.into();
    c.knob = vec![announce, yields as i64, r.chance(1, 2) as i64];
    c.knob.extend(errs.iter().map(|x| *x as i64));
    c.clients = if r.chance(1, 5) && n < 5000 { 2 } else { 1 };
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "leaf-source";
    if c.wl == "shape" {
        return shape_run(c);
    }
    if c.clients > 1 {
        probe("concurrent-builder");
        let c2 = c.clone();
        clients(
            class,
            vec![
                Box::new(move || one(c)),
                Box::new(move || {
                    let mut c3 = c2.clone();
                    c3.ctor = "new".into();
                    let w = World::seeded(&c3, 99, "new");
                    let t = must("leaf-source", "an unrelated build", || w.build(if c3.store == "lc" || c3.cfg { Some(cfg("other", c3.r)) } else { None }));
                    check!(t.root() == w.m.root(), "leaf-source", "an unrelated build next to a failing one is wrong");
                }),
            ],
        );
    } else {
        one(c)
    }
}
fn shape_run(c: &crate::run::Case) {
    let class = "leaf-source";
    let (cnt, odd) = (c.kn(0) as usize, c.kn(1));
    let persist = c.cfg || c.store == "lc";
    let n = if odd >= 0 { 8 } else { c.elem };
    let mut items = crate::model::leaves(c.dseed, cnt, n);
    let mk = |id: &str| if persist { Some(cfg(id, c.r)) } else { None };
    // constructors from finished nodes: as many as the count calls for, or some more or fewer
    let ar = if odd >= 0 { odd as usize } else { c.arity };
    let shaped = ar > 1 && (1..40).any(|e| ar.checked_pow(e) == Some(cnt));
    let finished = matches!(c.ctor.as_str(), "from_tree_slice" | "from_data_store");
    let d = if finished { c.kn(2) } else { 0 };
    let mut m = crate::model::Model::from_base(items[..items.len().min(n)].to_vec(), n, 2, height_sensitive(n));
    let want = (0..40).map(|e| cnt.checked_shr(e * (ar.max(2) as f64).log2() as u32).unwrap_or(0)).sum::<usize>();
    let have = if d == 1 << 20 { cnt } else { (want as i64 + d).max(0) as usize };
    m.nodes = crate::model::items(c.dseed ^ 5, have, n);
    m.leafs = cnt;
    // bytes that are no whole number of elements: a part of one more
    let ragged = if n > 1 && (finished || c.ctor == "from_byte_slice") { c.kn(3) as usize % n } else { 0 };
    if finished {
        m.nodes.extend(std::iter::repeat(7).take(ragged));
    } else {
        items.extend(std::iter::repeat(7).take(ragged));
    }
    if ragged > 0 {
        probe("ragged-bytes");
    }
    let build = |id: &str| {
        attempt(|| {
            if odd >= 0 {
                build_odd_arity(odd as usize, &c.store, &c.ctor, &Input { items: &items, model: Some(&m) }, mk(id)).map(|_| ())
            } else {
                combo(c.elem, c.arity, &c.store).build(&c.ctor, &Input { items: &items, model: Some(&m) }, mk(id)).map(|_| ())
            }
        })
    };
    let fits = !finished || have == want;
    let usable = odd < 0 && shaped && fits && ragged == 0;
    let what = format!(
        "{} {} {}: {} leaves{} with arity {}{}",
        c.store,
        if persist { "persisted" } else { "temporary" },
        c.ctor,
        cnt,
        if ragged > 0 { format!(" and {} bytes", ragged) } else { String::new() },
        ar,
        if finished { format!(" from {} nodes", have) } else { String::new() }
    );
    if finished && shaped && !fits {
        probe("wrong-node-count");
    }
    if !usable {
        probe(if odd >= 0 { "odd-arity" } else { "odd-shape" });
        for k in 0..2 {
            check!(build("t").is_err(), class, "{} made a tree (attempt {})", what, k + 1);
        }
    } else if c.store != "lc" {
        must(class, &what, || build("t").map_err(|e| anyhow::anyhow!("{:?}", e)));
    }
    let mut c2 = c.clone();
    c2.ctor = "new".into();
    let w = World::seeded(&c2, c.dseed, "new");
    let t = must(class, &format!("{}: a later build", what), || w.build(mk("u")));
    super::c05::verify_built(class, &format!("{}: a later build", what), t, &w, "u", &mut rng_of(c, 12));
}
fn one(c: &crate::run::Case) {
    let class = "leaf-source";
    let announce = if c.kn(0) < 0 { None } else { Some(c.kn(0) as usize) };
    let yields = c.kn(1) as usize;
    let mut errs: Vec<usize> = c.knob.iter().skip(3).map(|x| *x as usize).collect();
    errs.sort();
    let first = errs.first().copied().filter(|e| *e < yields);
    let n = c.leafs();
    let items = crate::model::leaves(c.dseed, n, c.elem);
    let persist = c.cfg || c.store == "lc";
    let mk = |id: &str| if persist { Some(cfg(id, c.r)) } else { None };
    let cb = combo(c.elem, c.arity, &c.store);
    let taken = AtomicUsize::new(0);
    fs::fs().faults_on = true;
    let r = attempt(|| cb.build_iter(&items, IterPlan { announce, yields, errs: errs.clone() }, mk("t"), &taken));
    fs::fs().faults_on = false;
    let shape = |a: usize| (1..40).any(|e| c.arity.checked_pow(e) == Some(a));
    let usable = announce.map_or(false, shape);
    // the configured number of discarded rows fits the planned size only
    let usable = usable && (c.store != "lc" || announce == Some(n));
    let what = format!("{} {} source announcing {:?}, yielding {}, errors at {:?}", c.store, if persist { "persisted" } else { "temporary" }, announce, yields, errs);
    let took = taken.load(Ordering::Relaxed);
    if n > 262_144 {
        probe("batch-boundary");
    }
    let mut rng = rng_of(c, 12);
    let w = World::seeded(c, c.dseed, "new");
    match r {
        Ok(t) => {
            check!(first.is_none(), class, "{}: a tree was built although leaf {:?} was an error", what, first);
            check!((usable || c.store == "lc") && announce == Some(yields), class, "{}: a tree was built from the wrong number of leaves", what);
            check!(announce.map_or(false, shape), class, "{}: unusable count accepted", what);
            if announce == Some(n) {
                probe("honest");
                super::c05::verify_built(class, &what, t, &w, "t", &mut rng);
            }
            return;
        }
        Err(Fail::Panic(m)) => {
            // a source that lies about its length may be answered with a panic, an error it yields may not
            let lie = !usable || (yields != announce.unwrap_or(0) && first.map_or(true, |f| f >= announce.unwrap_or(0)));
            check!(lie, class, "{}: panicked: {}", what, m);
            probe("lie-panicked");
        }
        Err(Fail::Err(e)) => {
            if let (Some(f), true) = (first, usable) {
                let want = format!("injected leaf error #{}", f);
                let must_see = announce.map_or(false, |a| f < a);
                if must_see {
                    let cut = e.find(&want).map_or(false, |k| !e[k + want.len()..].starts_with(|ch: char| ch.is_ascii_digit()));
                    check!(cut, class, "{}: the caller got another error than the first one: {}", what, e);
                    check!(took == f + 1, class, "{}: {} items were taken from the source, the first error was item {}", what, took, f);
                    probe("error-returned");
                    if f == 0 {
                        probe("error-first");
                    }
                    if f + 1 == n {
                        probe("error-last");
                    }
                    if f > 0 && f + 1 < n {
                        probe("error-late");
                    }
                    if errs.len() > 1 && errs[1] > f {
                        probe("second-error-ignored");
                    }
                } else {
                    check!(took <= f + 1, class, "{}: items were taken after the error", what);
                }
            } else {
                check!(!(usable && first.is_none() && announce == Some(yields)), class, "{}: an honest source was refused: {}", what, e);
                match announce {
                    None => probe("no-count"),
                    Some(_) if !usable => probe("unusable-count"),
                    Some(a) if yields < a => probe("short-source"),
                    _ => probe("long-source"),
                }
            }
        }
    }
    // trying again does not turn an unusable number of leaves into a tree
    if let (Some(a), true) = (announce, persist) {
        if !shape(a) {
            fs::fs().faults_on = true;
            let r = attempt(|| cb.build_iter(&items, IterPlan { announce, yields, errs: errs.clone() }, mk("t"), &taken));
            fs::fs().faults_on = false;
            check!(r.is_err(), class, "{}: refused at first, but the same call again returned a tree", what);
            probe("unusable-again");
        }
    }
    // later builds work
    let id = if persist && c.kn(2) == 1 {
        if get_file(&path_of("t")).is_some() {
            must(class, "delete after a failed build", || cb.delete(cfg("t", c.r)));
        }
        probe("rebuilt-same-id");
        "t"
    } else {
        probe("rebuilt-fresh-id");
        "u"
    };
    let t = must(class, &format!("{}: a later build", what), || w.build(mk(id)));
    super::c05::verify_built(class, &format!("{}: a later build", what), t, &w, id, &mut rng);
}
