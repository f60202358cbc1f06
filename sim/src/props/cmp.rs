//! Compound trees under the properties that are about the files and threads of their parts.
//! Marked by `ver == CMP`, so that a property can mix these runs with those on single trees.
use super::c16::{drive, gen_case, CWorld};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{Case, Op, RunSpec};
use crate::tree::*;
use std::collections::BTreeMap;

pub const CMP: u32 = 77;
pub fn is(c: &Case) -> bool {
    c.ver == CMP
}
fn on_files(c: &Case) -> bool {
    c.store == "lc-reader" || matches!(c.wl.as_str(), "opened" | "configs" | "sub_configs")
}
fn fits(prop: &str, c: &Case) -> bool {
    match prop {
        "C03" => c.store.starts_with("lc") || c.store == "disk",
        "C05" => c.store != "vec",
        "C07" => on_files(c),
        "C10" => on_files(c) && c.store != "lc",
        "C13" => c.store == "lc-reader",
        "C14" => c.store.starts_with("lc") && c.r > 0,
        "C15" => on_files(c) && c.store != "mmap",
        "C17" => on_files(c),
        _ => true,
    }
}
pub fn gen(r: &mut Rng, seed: u64, prop: &str) -> RunSpec {
    let mut c = gen_case(r);
    for _ in 0..200 {
        if fits(prop, &c) {
            break;
        }
        c = gen_case(r);
    }
    c.ver = CMP;
    c.clients = if prop == "C17" { 2 } else { r.range(1, 3) };
    // knob 0: where the shared base data is cut (permille), 1: free choice, 2: a hole before the base data
    let cut = if prop == "C13" && r.chance(1, 3) { r.below(1000) as i64 } else { 1000 };
    let hole = if prop == "C13" && r.chance(1, 6) { *r.pick(&[1 << 31, (1 << 32) - 40, (3 << 32) + 8]) } else { 0 };
    c.knob = vec![cut, r.below(1000) as i64, hole];
    for k in 0..c.clients {
        for _ in 0..r.range(2, 8) {
            c.ops.push(op(*r.pick(super::c16::CREADS), r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
        }
    }
    let sp = sched_plan(r);
    let mut io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    match prop {
        "C05" => io = hard(r, ALL_IO),
        "C18" if r.chance(1, 3) => io = hard(r, ALL_IO),
        "C13" if r.chance(1, 2) => {
            io.gen.hard = true;
            io.gen.rates = vec![(Class::Read, *r.pick(&[1, 2, 4, 12]))];
            io.gen.budget = *r.pick(&[1, 2, 5, 50]);
        }
        _ => {}
    }
    spec("", seed, c, sp, io)
}
fn all(cw: &CWorld) -> Vec<usize> {
    (0..cw.parts.len()).collect()
}
fn files(names: &[String]) -> BTreeMap<String, Option<Vec<u8>>> {
    names.iter().map(|n| (n.clone(), get_file(&dir().join(n)))).collect()
}
/// leaves and proofs of every part
fn verify(class: &str, what: &str, t: &dyn DynTree, cw: &CWorld, rng: &mut Rng) {
    cw.shape(class, t);
    for k in 0..cw.parts.len() {
        for kd in ["at", "proof", "cproof"] {
            let o = op(kd, k * cw.per() + rng.below(cw.per()), rng.below(1000), 0);
            match cw.read_eval(t, &o) {
                (_, Ok(None)) => {}
                (w, x) => violation(class, &format!("{}: {}: {:?}", what, w, x)),
            }
        }
    }
}

pub fn run(s: &RunSpec) {
    probe("compound");
    let c = &s.case;
    let cw = CWorld::new(c);
    let mut rng = rng_of(c, 40);
    let what = format!("compound {} {} {}+{} of {} leafs r{}", c.wl, c.store, c.sub, c.top, cw.per(), c.r);
    match s.prop.as_str() {
        "C03" => partial("partial-proof", &cw, &what, &mut rng),
        "C05" => {
            let t = drive(c, "disk-fault", &cw, &mut rng);
            verify("disk-fault", &what, &*t, &cw, &mut rng);
        }
        "C07" => restart("restart", &cw, &what, &mut rng),
        "C10" => sizes("wrong-size", &cw, &what, &mut rng),
        "C13" => external("external-base", &cw, &what, &mut rng),
        "C14" => discarded("discarded", &cw, &what, &mut rng),
        "C15" => read_only("read-only", &cw, &what, &mut rng),
        "C17" => isolated("isolation", &cw, &what),
        _ => {
            let t = drive(c, "wedged", &cw, &mut rng);
            verify("wedged", &what, &*t, &cw, &mut rng);
        }
    }
}
fn assemble(class: &str, what: &str, cw: &CWorld, rng: &mut Rng) -> Tree {
    let rc = cw.prepare("a", rng);
    must(class, &format!("{}: assemble", what), || cw.assemble("a", rc.as_ref(), &all(cw)))
}
fn partial(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let c = &cw.c;
    let t = assemble(class, what, cw, rng);
    fs::fs().faults_on = true;
    let (lo, def) = (if c.store.starts_with("lc") { c.r } else { 0 }, default_r(c));
    let go = |i: usize, x: Option<usize>| {
        let p = must(class, &format!("{}: partial-rebuild proof of leaf {} with {:?} rows discarded", what, i, x), || t.cached_proof(i, x));
        if let Some(m) = cw.proof_diff(&*p, i) {
            violation(class, &format!("{}: {:?} rows discarded: {}", what, x, m));
        }
    };
    for k in 0..cw.parts.len() {
        for j in sample(rng, cw.per(), 3) {
            let i = k * cw.per() + j;
            go(i, None);
            for x in lo..=def {
                go(i, Some(x));
            }
        }
    }
    fs::fs().faults_on = false;
    verify(class, what, &*t, cw, rng);
}
fn restart(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let rc = cw.prepare("a", rng);
    let names = list_dir(&dir());
    let before = files(&names);
    fs::fs().faults_on = true;
    for k in 0..2 {
        let t = must(class, &format!("{}: opening {}", what, k), || cw.assemble("a", rc.as_ref(), &all(cw)));
        verify(class, what, &*t, cw, rng);
        drop(t);
        check!(list_dir(&dir()) == names && files(&names) == before, class, "{}: opening and reading changed the files", what);
    }
}
fn sizes(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let c = &cw.c;
    let rc = cw.prepare("a", rng);
    let k = rng.below(cw.parts.len());
    let p = path_of(&cw.part_id("a", k));
    let good = get_file(&p).unwrap();
    let n = c.elem;
    for _ in 0..rng.range(1, 4) {
        let mut bad = good.clone();
        let how = *rng.pick(&["shorter", "shorter", "longer", "longer", "empty", "format", "gone"]);
        match how {
            "shorter" => {
                let by = *rng.pick(&[1, n - 1, n, n + 1, good.len() / 2, good.len() - 1]);
                bad.truncate(good.len() - by.clamp(1, good.len()));
            }
            "longer" => {
                let by = *rng.pick(&[1, n - 1, n, n + 1, good.len()]);
                bad.resize(good.len() + by.max(1), 0);
            }
            "empty" => bad.clear(),
            "format" => {
                let r = rng.below(default_r(c) + 1);
                bad = cw.parts[k].file(*rng.pick(&[Kind::Full, Kind::V1(r), Kind::V2(r)]));
            }
            _ => {}
        }
        if how != "gone" && bad.len() == good.len() {
            continue;
        }
        {
            put_file(&p, &bad);
            if how == "gone" {
                let _g = crate::sched::Bypass::new();
                std::fs::remove_file(&p).expect("harness: remove");
            }
        }
        let names = list_dir(&dir());
        let before = files(&names);
        fs::fs().faults_on = true;
        // what a refused attempt leaves behind must not make the next one succeed either
        let (first, x) = (attempt(|| cw.assemble("a", rc.as_ref(), &all(cw))), attempt(|| cw.assemble("a", rc.as_ref(), &all(cw))));
        fs::fs().faults_on = false;
        probe("compound-refused");
        check!(first.is_err() && x.is_err(), class, "{}: assembled although the file of part {} is {} ({} instead of {} bytes)", what, k, how, bad.len(), good.len());
        check!(list_dir(&dir()) == names && files(&names) == before, class, "{}: refusing a part with a file that is {} changed the files", what, how);
        put_file(&p, &good);
    }
    let t = must(class, &format!("{}: assemble from whole files", what), || cw.assemble("a", rc.as_ref(), &all(cw)));
    verify(class, what, &*t, cw, rng);
}
fn external(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let c = &cw.c;
    let rc = cw.prepare("a", rng).expect("shared base data");
    let t = must(class, &format!("{}: assemble", what), || cw.assemble("a", Some(&rc), &all(cw)));
    let hole = c.kn(2) as u64;
    let size = file_size(&rc.path);
    let whole = c.kn(0) >= 1000;
    let cut = if whole { size } else { hole + (size - hole) * c.kn(0) as u64 / 1000 };
    if !whole {
        probe("cut-replica");
        set_size(&rc.path, cut);
    }
    let n = c.elem;
    let there = |i: usize| (rc.offsets[i / cw.per()] + (i % cw.per() + 1) * n) as u64 <= cut;
    let complete = |i: usize| (rc.offsets[i / cw.per()] + cw.per() * n) as u64 <= cut;
    let hard = || fs::fs().fired.iter().any(|f| !fs::is_benign(f.class, f.kind));
    let one = |o: &Op, quiet: bool| {
        let i = o.a % cw.leafs();
        let (w, x) = cw.read_eval(&*t, o);
        let at = !matches!(o.k.as_str(), "proof" | "cproof") || (o.k == "proof" && c.r > 0);
        match x {
            Ok(None) => {}
            Ok(Some(m)) => violation(class, &format!("{}: {}: {}", what, w, m)),
            Err(Fail::Panic(m)) => violation(class, &format!("{}: {}: panicked: {}", what, w, m)),
            Err(Fail::Err(m)) => {
                let ok = if at { there(i) } else { complete(i) };
                check!(!ok || (!quiet && hard()), class, "{}: {}: failed although the base data is all there: {}", what, w, m);
            }
        }
        if at && !there(i) {
            probe("beyond-the-cut");
        }
    };
    fs::fs().begin_op(1);
    fs::fs().faults_on = true;
    {
        let one = &one;
        clients(class, (0..c.clients).map(|k| Box::new(move || c.ops.iter().filter(|o| o.c == k as u64).for_each(|o| one(o, false))) as Box<dyn FnOnce() + Send>).collect());
    }
    heal();
    for i in sample(rng, cw.leafs(), 60) {
        one(&op("at", i, 0, 0), true);
        let got = attempt(|| t.read_at(i));
        check!(got.is_ok() == there(i), class, "{}: leaf {} of part {} {}", what, i % cw.per(), i / cw.per(), if there(i) { "is not readable" } else { "is read beyond the end of the base data" });
    }
    for i in sample(rng, cw.leafs(), 8) {
        one(&op("cproof", i, rng.below(1000), 0), true);
    }
}
fn discarded(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let c = &cw.c;
    let t = assemble(class, what, cw, rng);
    let def = default_r(c);
    fs::fs().faults_on = true;
    let judge = |i: usize, x: Option<usize>, got: std::result::Result<Box<dyn ProofObj>, Fail>| match got {
        Ok(p) => {
            if let Some(m) = cw.proof_diff(&*p, i) {
                violation(class, &format!("{}: proof of leaf {} with {:?} rows discarded: {}", what, i, x, m));
            }
        }
        Err(e) => {
            probe("compound-refused");
            check!(x.map_or(true, |x| x < c.r), class, "{}: proof of leaf {} with {:?} rows discarded failed: {:?}", what, i, x, e);
        }
    };
    let (t, judge) = (&*t, &judge);
    let go = move |o: &Op| {
        let i = o.a % cw.leafs();
        match o.k.as_str() {
            "proof" => judge(i, None, attempt(|| t.proof(i))),
            "cproof" => {
                let x = o.b % (def + 1);
                judge(i, Some(x), attempt(|| t.cached_proof(i, Some(x))))
            }
            _ => {
                let g = must(class, &format!("{}: leaf {}", what, i), || t.read_at(i));
                check!(g == cw.leaf(i), class, "{}: leaf {} reads wrong", what, i);
            }
        }
    };
    clients(class, (0..c.clients).map(|k| Box::new(move || c.ops.iter().filter(|o| o.c == k as u64).for_each(|o| go(o))) as Box<dyn FnOnce() + Send>).collect());
    fs::fs().faults_on = false;
    verify(class, what, t, cw, rng);
}
fn read_only(class: &str, cw: &CWorld, what: &str, rng: &mut Rng) {
    let rc = cw.prepare("a", rng);
    let names = list_dir(&dir());
    let before = files(&names);
    let errno = if cw.c.kn(1) % 2 == 0 { libc::EACCES } else { libc::EROFS };
    for n in &names {
        fs::fs().set_read_only(&dir().join(n).to_string_lossy(), errno);
    }
    fs::fs().faults_on = true;
    let t = must(class, &format!("{}: assemble from read-only files", what), || cw.assemble("a", rc.as_ref(), &all(cw)));
    verify(class, what, &*t, cw, rng);
    drop(t);
    fs::fs().faults_on = false;
    fs::fs().clear_read_only();
    check!(list_dir(&dir()) == names && files(&names) == before, class, "{}: read-only files changed", what);
}
/// two compound trees of one directory, made and used at the same time
fn isolated(class: &str, cw: &CWorld, what: &str) {
    let mut c2 = cw.c.clone();
    c2.dseed ^= 0x5A5A;
    let cw2 = CWorld::new(&c2);
    let (tags, ws) = (["one", "one-1"], [cw, &cw2]);
    let made: Vec<_> = (0..2).map(|k| ws[k].prepare(tags[k], &mut rng_of(&cw.c, 41 + k as u64))).collect();
    let (made, ws) = (&made, &ws);
    let names = list_dir(&dir());
    let before = files(&names);
    fs::fs().faults_on = true;
    clients(
        class,
        (0..2)
            .map(|k| {
                Box::new(move || {
                    let mut rng = rng_of(&ws[k].c, 50);
                    let t = must(class, &format!("{}: assemble {}", what, tags[k]), || ws[k].assemble(tags[k], made[k].as_ref(), &all(ws[k])));
                    for o in &cw.c.ops {
                        match ws[k].read_eval(&*t, o) {
                            (_, Ok(None)) => {}
                            (w, x) => violation(class, &format!("{}: {}: {:?}", what, w, x)),
                        }
                    }
                    verify(class, what, &*t, ws[k], &mut rng);
                }) as Box<dyn FnOnce() + Send>
            })
            .collect(),
    );
    fs::fs().faults_on = false;
    check!(list_dir(&dir()) == names && files(&names) == before, class, "{}: using two compound trees changed their files", what);
    // the parts of one are deleted, the other stays
    let store = if cw.c.store == "lc-reader" { "lc" } else { &cw.c.store };
    for k in 0..cw.parts.len() {
        must(class, "delete a part", || combo(cw.c.elem, cw.c.arity, store).delete(cfg(&cw.part_id(tags[0], k), cw.c.r)));
    }
    let gone: Vec<String> = (0..cw.parts.len()).map(|k| path_of(&cw.part_id(tags[0], k)).file_name().unwrap().to_string_lossy().to_string()).collect();
    let left: Vec<String> = names.iter().filter(|n| !gone.contains(n)).cloned().collect();
    check!(list_dir(&dir()) == left, class, "{}: deleting the parts of one tree left {:?}, expected {:?}", what, list_dir(&dir()), left);
    check!(left.iter().all(|n| get_file(&dir().join(n)) == before[n]), class, "{}: deleting the parts of one tree changed another file", what);
    let t = must(class, "assemble the other tree again", || cw2.assemble(tags[1], made[1].as_ref(), &all(&cw2)));
    verify(class, what, &*t, &cw2, &mut rng_of(&cw.c, 51));
}
