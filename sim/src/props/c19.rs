//! C19: file handles, mappings and temporary files are all released.
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::RunSpec;
use crate::tree::*;
use crate::types::HASH_FAULTS;

pub const PROBES: &[&str] = &["build-ok", "build-failed", "open-ok", "open-failed", "wrong-size", "compact-ok", "compact-failed", "iterator-failed", "hash-panicked", "temporary", "unmap", "store-ops", "many-cycles", "delete", "kept-alive", "compound-ok", "compound-failed", "clients"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = base_case(r, "cycles", &["vec", "disk", "disk", "mmap", "mmap", "lc"], 1024);
    for _ in 0..r.range(2, 12) {
        c.ops.push(op(*r.pick(&["build", "build", "build", "open", "open", "size", "compact", "iter", "panic", "store", "delete", "compound", "compound", "clients"]), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let mut io = match r.below(4) {
        0 => no_faults(r),
        1 => benign(r),
        _ => {
            let mut v = ALL_IO.to_vec();
            v.push(Class::Source);
            let mut io = hard(r, &v);
            io.gen.budget = *r.pick(&[2, 5, 20]);
            io
        }
    };
    io.gen.panic = true;
    io.gen.rates.push((Class::Hash, *r.pick(&[3, 20, 100])));
    io.gen.budget = io.gen.budget.max(1);
    spec("", seed, c, sp, io)
}

fn settled(what: &str, hold: (usize, usize)) {
    let class = "leak";
    let f = fs::fs();
    let fds = f.open_fds();
    check!(fds.len() == hold.0, class, "{}: open descriptors left: {:?} (expected {})", what, fds, hold.0);
    check!(f.live_maps() == hold.1, class, "{}: {} mappings left (expected {})", what, f.live_maps(), hold.1);
    let tmp = tmp_list();
    // an unlink that was made to fail cannot be blamed
    if !f.counts.keys().any(|k| k.starts_with("unlink:")) {
        check!(tmp.is_empty(), class, "{}: temporary files left: {:?}", what, tmp);
    }
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "leak";
    settled("before anything", (0, 0));
    let mut keep: Vec<Tree> = vec![];
    if c.ops.len() > 8 {
        probe("many-cycles");
    }
    if c.dseed % 3 == 0 && c.store != "vec" {
        // a tree that stays alive: its own handles must be the only ones left
        let mut c2 = c.clone();
        c2.cfg = true;
        c2.exp = c.exp.min(3);
        c2.r = 0;
        let w = World::seeded(&c2, 1, "from_byte_slice");
        keep.push(must(class, "build the kept tree", || w.build(Some(cfg("kept", 0)))));
        probe("kept-alive");
    }
    let hold = (fs::fs().open_fds().len(), fs::fs().live_maps());
    check!(hold.0 <= keep.len() && hold.1 <= keep.len(), class, "one live tree holds {:?} descriptors and mappings", hold);
    for (k, o) in c.ops.iter().enumerate() {
        let mut c2 = c.clone();
        c2.exp = 1 + (o.a as u32 / 16) % c.exp;
        c2.cfg = c.store != "vec" && (c.store == "lc" || o.b % 2 == 0);
        c2.r = (o.b / 4) % (default_r(&c2) + 1);
        let n = k as u32 + 1;
        let id = format!("t{}", k % 3);
        let step = format!("{} step {} {}", c.store, k, o.k);
        {
            // every step starts from a clean slate for its identifier
            let _g = crate::sched::Bypass::new();
            let _ = std::fs::remove_file(path_of(&id));
        }
        match o.k.as_str() {
            "build" | "panic" => {
                let ctors = ["new", "from_data", "try_from_iter", "from_par_iter", "from_byte_slice", "from_tree_slice", "from_data_store"];
                let m = if c.store == "lc" { 5 } else { 7 };
                let w = World::seeded(&c2, o.c, ctors[o.a % m]);
                if !c2.cfg && c.store != "vec" {
                    probe("temporary");
                }
                unsafe { HASH_FAULTS = o.k == "panic" };
                let (r, _) = faulty(n, || w.build(if c2.cfg { Some(cfg(&id, c2.r)) } else { None }));
                unsafe { HASH_FAULTS = false };
                heal();
                match r {
                    Ok(t) => {
                        probe("build-ok");
                        if c.store == "mmap" && o.b % 3 == 0 {
                            probe("unmap");
                            let mut t = t;
                            let _ = attempt(|| t.compact(cfg(&id, 0), 2));
                            let _ = attempt(|| t.reinit());
                            let _ = attempt(|| t.reinit());
                        }
                    }
                    Err(Fail::Panic(_)) => probe("hash-panicked"),
                    Err(_) => probe("build-failed"),
                }
            }
            "open" | "size" => {
                let forms: Vec<&str> = FORMS.iter().copied().filter(|f| form_store(f) == c.store).collect();
                if forms.is_empty() {
                    continue;
                }
                let form = forms[o.a % forms.len()];
                c2.cfg = true;
                let w = World::seeded(&c2, o.c, "new");
                place_form(&w, form, &dir(), &id);
                if o.k == "size" {
                    probe("wrong-size");
                    let mut b = get_file(&path_of(&id)).unwrap();
                    if o.b % 2 == 0 {
                        b.truncate(o.b % b.len());
                    } else {
                        b.push(1);
                    }
                    put_file(&path_of(&id), &b);
                }
                let (r, _) = faulty(n, || {
                    let t = open_form(&w, form, &dir(), &id)?;
                    let _ = t.read_at(0);
                    let _ = t.cached_proof(0, None);
                    if c.store != "lc" {
                        let _ = t.proof(w.m.leafs - 1);
                    }
                    Ok(t)
                });
                heal();
                probe(if r.is_ok() { "open-ok" } else { "open-failed" });
            }
            "compact" if c.store == "disk" => {
                c2.cfg = true;
                let w = World::seeded(&c2, o.c, "new");
                let mut t = must(class, "build", || w.build(Some(cfg(&id, c2.r))));
                let (r, _) = faulty(n, || t.compact(cfg(&id, c2.r), 1 + (o.a % 2) as u32));
                heal();
                probe(if r.is_ok() { "compact-ok" } else { "compact-failed" });
                let now = fs::fs().open_fds().len();
                check!(now <= hold.0 + 1, class, "{}: a compacted tree holds {} descriptors", step, now - hold.0);
            }
            "iter" => {
                let w = World::seeded(&c2, o.c, "new");
                let taken = Default::default();
                let plan = IterPlan { announce: Some(w.m.leafs), yields: w.m.leafs, errs: vec![o.a % w.m.leafs] };
                let (r, _) = faulty(n, || w.combo().build_iter(&w.items, plan, if c2.cfg { Some(cfg(&id, c2.r)) } else { None }, &taken));
                heal();
                check!(r.is_err(), class, "{}: built from a failing source", step);
                probe("iterator-failed");
            }
            "store" => {
                probe("store-ops");
                let cb = combo(c.elem, c.arity, &c.store);
                c2.cfg = c2.cfg && c.store != "vec";
                let cap = super::c04::capacity(&c2).max(31);
                let cap = if c.store == "lc" { super::c04::capacity(&c2) } else { cap };
                let d = crate::model::values(o.c, cap, c.elem);
                let cf = if c2.cfg { Some(cfg(&id, 0)) } else { None };
                let (_r, _) = faulty(n, || {
                    let mut s = if o.a % 2 == 0 { cb.new_store(cap, cf)? } else { cb.new_store_slice(cap, &d, cf)? };
                    let _ = s.write_at(&d[..c.elem], 0);
                    let _ = s.copy_from_slice(&d, 0);
                    let _ = s.sync();
                    let _ = s.read_range(0, 1);
                    let _ = s.reinit();
                    if c.store == "mmap" {
                        let _ = s.compact(c.arity, cfg(&id, 0), 2);
                        let _ = s.write_at(&d[..c.elem], 0);
                    }
                    Ok(())
                });
                heal();
            }
            "compound" => {
                let mut r = Rng::new(o.c);
                let mut cc = super::c16::gen_case(&mut r);
                cc.exp = cc.exp.min(3);
                cc.r = cc.r.min(default_r(&cc));
                let cw = super::c16::CWorld::new(&cc);
                let tag = format!("q{}", k);
                let rc = cw.prepare(&tag, &mut r);
                let mut all: Vec<usize> = (0..cw.parts.len()).collect();
                let short = o.a % 4 == 0;
                if short {
                    all.remove(o.b % all.len());
                }
                let rc = rc.map(|r| merkletree::store::ReplicaConfig::new(r.path.clone(), all.iter().map(|k| r.offsets[*k]).collect()));
                unsafe { HASH_FAULTS = o.a % 8 == 1 };
                let (r, _) = faulty(n, || {
                    let t = cw.assemble(&tag, rc.as_ref(), &all)?;
                    for i in [0, cw.leafs() - 1] {
                        let _ = attempt(|| t.read_at(i));
                        let _ = attempt(|| t.proof(i));
                        let _ = attempt(|| t.cached_proof(i, None));
                    }
                    Ok(())
                });
                unsafe { HASH_FAULTS = false };
                heal();
                check!(!short || r.is_err(), class, "{}: assembled from too few parts", step);
                probe(if r.is_ok() { "compound-ok" } else { "compound-failed" });
            }
            "clients" => {
                // several at once, on identifiers of their own
                probe("clients");
                let ws: Vec<World> = (0..2 + o.a as u64 % 2).map(|j| World::seeded(&c2, o.c + j, "new")).collect();
                fs::fs().begin_op(n);
                fs::fs().faults_on = true;
                clients(
                    class,
                    ws.iter()
                        .enumerate()
                        .map(|(j, w)| {
                            let id = format!("t{}-{}", k % 3, j);
                            let cfgd = c2.cfg.then(|| cfg(&id, c2.r));
                            Box::new(move || {
                                let _ = attempt(|| {
                                    let t = w.build(cfgd)?;
                                    let _ = t.read_at(1)?;
                                    t.cached_proof(0, None).map(|_| ())
                                });
                            }) as Box<dyn FnOnce() + Send>
                        })
                        .collect(),
                );
                heal();
                let _g = crate::sched::Bypass::new();
                for j in 0..ws.len() {
                    let _ = std::fs::remove_file(path_of(&format!("t{}-{}", k % 3, j)));
                }
            }
            "delete" if c.store != "vec" => {
                probe("delete");
                c2.cfg = true;
                let w = World::seeded(&c2, o.c, "from_byte_slice");
                let t = must(class, "build", || w.build(Some(cfg(&id, c2.r))));
                must(class, "delete", || t.delete(cfg(&id, c2.r)));
                drop(t);
                check!(get_file(&path_of(&id)).is_none(), class, "{}: deleted file is still there", step);
            }
            _ => {}
        }
        settled(&step, hold);
    }
    drop(keep);
    settled("after everything was dropped", (0, 0));
}
