//! C07: persisted trees survive a clean restart unchanged.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::RunSpec;
use crate::tree::*;

pub const PROBES: &[&str] = &["route:disk", "route:disk-path", "route:disk-config", "route:mmap", "route:mmap-config", "route:lc-v1", "route:lc-v2", "route:lc-v2-set", "route:lc-v2-source", "rebuild-reloads", "rebuild-refused", "concurrent-openers", "rebuild-other-leaves", "compacted-first", "other-tree-between", "replaced", "compound"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = base_case(r, "restart", &["disk", "disk", "mmap", "lc"], 8192);
    pick_ctor(r, &mut c);
    c.cfg = true;
    pick_r(r, &mut c);
    // compact before the first drop (disk only)
    c.knob = vec![(c.store == "disk" && r.chance(1, 4)) as i64];
    if c.knob[0] == 1 || c.store == "lc" {
        c.r = r.below(default_r(&c) + 1);
    }
    for _ in 0..r.range(1, 5) {
        let k = *r.pick(&["open", "open", "open", "open", "again", "again", "par", "decoy", "replace"]);
        c.ops.push(op(k, r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 2) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "restart";
    let mut w = World::new(c);
    let mut rng = rng_of(c, 7);
    fs::fs().faults_on = true;
    let compacted = c.kn(0) == 1;
    let make = |w: &World, id: &str| {
        let mut t = must(class, "build", || w.build(Some(cfg(id, c.r))));
        if compacted {
            probe("compacted-first");
            must(class, "compact", || t.compact(cfg(id, c.r), c.ver));
        }
    };
    make(&w, "t");
    let forms: Vec<&str> = match (c.store.as_str(), compacted) {
        ("disk", false) => vec!["disk", "disk-path", "disk-config"],
        ("mmap", _) => vec!["mmap", "mmap-config"],
        ("disk", true) if c.ver == 1 => vec!["lc-v1", "lc-v1-config"],
        _ => vec!["lc-v2", "lc-v2-set", "lc-v2-source"],
    };
    let mut want = w.file(form_kind(forms[0], c.r));
    for f in &forms {
        place_base(&w, f, &dir(), "t");
    }
    let same = |what: &str, want: &[u8]| {
        let got = get_file(&path_of("t")).unwrap_or_default();
        check!(got == want, class, "{}: the file changed ({} bytes, expected {})", what, got.len(), want.len());
    };
    same("after build and drop", &want);
    for (k, o) in c.ops.iter().enumerate() {
        fs::fs().begin_op(k as u32 + 1);
        let form = forms[o.a % forms.len()];
        let what = format!("{} {} leafs {} r{} step {} {}", c.store, c.ctor, w.m.leafs, c.r, k, o.k);
        match o.k.as_str() {
            "open" => {
                probe(&format!("route:{}", form));
                place_base(&w, form, &dir(), "t");
                let t = must(class, &format!("{}: reopen by {}", what, form), || open_form(&w, form, &dir(), "t"));
                verify_form(class, &format!("{} {}", what, form), &*t, &w, form, &mut rng, Depth { nodes: 6, proofs: 6 });
            }
            "decoy" => {
                // another tree comes and goes in between
                probe("other-tree-between");
                let d = World::seeded(c, c.dseed ^ 0xdec0 ^ k as u64, &c.ctor);
                make(&d, "d");
                place_base(&d, form, &dir(), "d");
                let t = must(class, &format!("{}: open another tree by {}", what, form), || open_form(&d, form, &dir(), "d"));
                verify_form(class, &format!("{}: another tree by {}", what, form), &*t, &d, form, &mut rng, Depth { nodes: 4, proofs: 4 });
                drop(t);
                must(class, "delete another tree", || combo(c.elem, c.arity, form_store(form)).delete(cfg("d", c.r)));
                place_base(&w, form, &dir(), "t");
                let t = must(class, &format!("{}: reopen by {}", what, form), || open_form(&w, form, &dir(), "t"));
                verify_form(class, &format!("{} {} after another tree", what, form), &*t, &w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
            }
            "replace" => {
                // deleted and made again from other leaves under the same identifier
                probe("replaced");
                must(class, "delete", || combo(c.elem, c.arity, form_store(form)).delete(cfg("t", c.r)));
                w = World::seeded(c, c.dseed ^ 0x5e9 ^ (k as u64) << 16, &c.ctor);
                make(&w, "t");
                want = w.file(form_kind(forms[0], c.r));
                for f in &forms {
                    place_base(&w, f, &dir(), "t");
                }
                let t = must(class, &format!("{}: open the replacement by {}", what, form), || open_form(&w, form, &dir(), "t"));
                verify_form(class, &format!("{} {} replaced", what, form), &*t, &w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
            }
            "par" => {
                probe("concurrent-openers");
                let form = if form == "lc-v2-source" { "lc-v2" } else { form };
                place_base(&w, form, &dir(), "t");
                let w = &w;
                let what = &what;
                clients(
                    class,
                    (0..2)
                        .map(|j| {
                            let mut rng = Rng::new(o.c ^ j);
                            Box::new(move || {
                                let t = must(class, &format!("{}: concurrent reopen by {}", what, form), || open_form(w, form, &dir(), "t"));
                                verify_form(class, &format!("{} {}", what, form), &*t, w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
                            }) as Box<dyn FnOnce() + Send>
                        })
                        .collect(),
                );
            }
            _ => {
                // build over the existing file, possibly from other leaves
                let ctor = CTORS[o.b % CTORS.len()];
                if form_store(form) == "lc" && (ctor == "from_tree_slice" || ctor == "from_data_store") {
                    continue;
                }
                let other = o.c % 2 == 0;
                let mut w2 = World::seeded(c, if other { w.c.dseed ^ 0xabc } else { w.c.dseed }, ctor);
                w2.c.store = form_store(form).into();
                if other {
                    probe("rebuild-other-leaves");
                }
                let r = attempt(|| w2.build(Some(cfg("t", c.r))));
                let what = format!("{}: {} over the existing file", what, ctor);
                match r {
                    Ok(mut t) => {
                        probe("rebuild-reloads");
                        if form_store(form) == "lc" && !form.starts_with("lc-v1") {
                            must(class, "set reader", || t.set_reader(&dir().join("base-t")));
                        }
                        check!(t.root() == w.m.root(), class, "{}: the result is not the stored tree", what);
                        if !form.starts_with("lc-v2") {
                            verify_form(class, &what, &*t, &w, form, &mut rng, Depth { nodes: 4, proofs: 4 });
                        }
                    }
                    Err(Fail::Panic(p)) => violation(class, &format!("{}: panicked: {}", what, p)),
                    Err(Fail::Err(e)) => {
                        probe("rebuild-refused");
                        check!(ctor == "from_byte_slice" || form_store(form) == "lc", class, "{}: refused instead of reloading: {}", what, e);
                    }
                }
            }
        }
        same(&what, &want);
    }
}
