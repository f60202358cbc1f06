//! C11: corrupted storage never yields an accepted proof for wrong data.
use super::c16::{self, CWorld};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{self, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &[
    "rest", "rest-after-open", "flip", "tamper", "foreign-data", "rejected", "still-right", "root-corrupted", "base-corrupted", "swapped", "zeroed", "another-tree", "compound", "two-layers", "compound-base", "parts-exchanged", "reordered", "other-path", "other-sub-proof",
];

/// a compound tree whose files are altered under it
fn gen_compound(r: &mut Rng, seed: u64) -> RunSpec {
    let mut c = c16::gen_case(r);
    while c.store == "vec" || matches!(c.wl.as_str(), "slices" | "stores") || !c.cfg {
        c = c16::gen_case(r);
    }
    if r.chance(1, 2) {
        c.ctor = "from_data".into();
    }
    c.knob = vec![r.below(4) as i64];
    for _ in 0..r.range(1, 4) {
        c.ops.push(op(*r.pick(&["bit", "byte", "zero", "swap", "rand", "root", "tree", "part", "part"]), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}
fn run_compound(s: &RunSpec) {
    let c = &s.case;
    let class = "accepted-corruption";
    let cw = CWorld::new(c);
    let mut rng = rng_of(c, 11);
    probe("compound");
    if c.top > 0 {
        probe("two-layers");
    }
    let rc = cw.prepare("a", &mut rng);
    let all: Vec<usize> = (0..cw.parts.len()).collect();
    let t = must(class, "assemble", || cw.assemble("a", rc.as_ref(), &all));
    let n = cw.leafs();
    let what = format!("compound {} {} {}+{} r{}", c.wl, c.store, c.sub, c.top, c.r);
    let lc = c.store.starts_with("lc");
    let proof = |i: usize, k: usize| match k {
        0 if !lc => attempt(|| t.proof(i)),
        1 if lc => attempt(|| t.cached_proof(i, Some(c.r))),
        _ if lc || c.store == "disk" => attempt(|| t.cached_proof(i, None)),
        _ => attempt(|| t.proof(i)),
    };
    let depth = if c.top > 0 { 3 } else { 2 };
    let data = |i: usize| {
        let (w, k) = (&cw.parts[i / cw.per()], i % cw.per());
        &w.items[k * c.elem..(k + 1) * c.elem]
    };
    // honest proofs, taken apart and put together wrongly
    for _ in 0..3 {
        let (i, j) = (rng.below(n), rng.below(n));
        let (p, q) = (must(class, "proof", || proof(i, 0).map_err(|e| anyhow::anyhow!("{:?}", e))), must(class, "proof", || proof(j, 0).map_err(|e| anyhow::anyhow!("{:?}", e))));
        if let Some(m) = cw.proof_diff(&*p, i) {
            violation(class, &format!("{}: {}", what, m));
        }
        for d in 0..depth {
            reshape(class, &what, &*p, d, distinct(&cw.parts[i / cw.per()]), &mut rng);
        }
        probe("other-sub-proof");
        for d in 0..depth - 1 {
            let layer = |p: &dyn ProofObj| (0..d + 1).fold(None, |a: Option<Box<dyn ProofObj>>, _| a.as_deref().unwrap_or(p).sub()).expect("sub proof");
            let (sp, sq) = (layer(&*p), layer(&*q));
            let g = p.with_sub(d, Some(&*sq));
            let ok = matches!(attempt(|| g.validate()), Ok(true));
            check!(!ok || (sp.root() == sq.root() && g.item() == cw.leaf(j)), class, "{}: the proof of leaf {} with the part {} layers down of the proof of leaf {} is accepted", what, i, d + 1, j);
            check!(ok || sp.root() != sq.root(), class, "{}: the proof of leaf {} with an equally rooted part of the proof of leaf {} is rejected", what, i, j);
            check!(!matches!(attempt(|| p.with_sub(d, None).validate()), Ok(true)), class, "{}: a proof without its sub proof is accepted", what);
            check!(!matches!(attempt(|| p.with_sub(d, Some(&*p)).validate()), Ok(true)), class, "{}: a proof with itself as sub proof is accepted", what);
        }
        if c.ctor == "from_data" {
            check!(matches!(attempt(|| p.validate_with_data(data(i))), Ok(true)), class, "{}: compound proof of leaf {} rejected with its own data", what, i);
            let ok = attempt(|| p.validate_with_data(data(j)));
            check!(data(i) == data(j) || !matches!(ok, Ok(true)), class, "{}: compound proof of leaf {} accepted with the data of leaf {}", what, i, j);
        }
    }
    // the stored bytes change under the open tree
    let ids: Vec<usize> = all.iter().copied().filter(|k| get_file(&path_of(&cw.part_id("a", *k))).is_some()).collect();
    for o in &c.ops {
        match &rc {
            Some(rc) if o.c % 2 == 0 => {
                probe("compound-base");
                let mut b = get_file(&rc.path).unwrap();
                let len = cw.parts[0].base().len();
                let (x, y) = (rc.offsets[o.a % all.len()], rc.offsets[o.b % all.len()]);
                if o.k == "part" {
                    probe("parts-exchanged");
                    let (bx, by) = (b[x..x + len].to_vec(), b[y..y + len].to_vec());
                    b[x..x + len].copy_from_slice(&by);
                    b[y..y + len].copy_from_slice(&bx);
                } else {
                    corrupt(&mut b[x..x + len], o, c.elem, true);
                }
                patch(&rc.path, &b);
            }
            _ if ids.is_empty() => {}
            _ => {
                let (x, y) = (ids[o.a % ids.len()], ids[o.b % ids.len()]);
                let (fx, fy) = (path_of(&cw.part_id("a", x)), path_of(&cw.part_id("a", y)));
                let (mut bx, by) = (get_file(&fx).unwrap(), get_file(&fy).unwrap());
                if o.k == "part" {
                    probe("parts-exchanged");
                    patch(&fx, &by);
                    patch(&fy, &bx);
                } else {
                    corrupt(&mut bx, o, c.elem, false);
                    patch(&fx, &bx);
                }
            }
        }
    }
    fs::fs().faults_on = true;
    for i in sample(&mut rng, n, 40) {
        for k in 0..3 {
            match proof(i, k) {
                Ok(p) => {
                    run::checked(1);
                    match attempt(|| p.validate()) {
                        Ok(true) => {
                            check!(p.root() == cw.root(), class, "{}: accepted proof of leaf {} under another root", what, i);
                            check!(p.item() == cw.leaf(i), class, "{}: accepted proof of leaf {} for another value", what, i);
                            probe("still-right");
                        }
                        Err(Fail::Panic(m)) => violation(class, &format!("{}: validating a proof of leaf {} panicked: {}", what, i, m)),
                        _ => probe("rejected"),
                    }
                    if c.ctor == "from_data" {
                        for j in [i, (i + 1) % n, (i + cw.per()) % n] {
                            let ok = matches!(attempt(|| p.validate_with_data(data(j))), Ok(true));
                            check!(!ok || data(j) == data(i), class, "{}: proof of leaf {} accepted with the data of leaf {}", what, i, j);
                        }
                    }
                }
                Err(Fail::Err(_)) => probe("proof-error"),
                Err(Fail::Panic(m)) => violation(class, &format!("{}: proof of leaf {} panicked: {}", what, i, m)),
            }
        }
    }
}
/// With no two leaves alike no two nodes are, so that every exchange makes another proof.
fn distinct(w: &World) -> bool {
    let mut v: Vec<&[u8]> = w.items.chunks(w.m.n).collect();
    v.sort_unstable();
    v.windows(2).all(|p| p[0] != p[1])
}
/// An honest proof with its elements or its path in another order is none.
fn reshape(class: &str, what: &str, p: &dyn ProofObj, d: usize, distinct: bool, rng: &mut Rng) {
    if !distinct {
        return;
    }
    let lay = (0..d).fold(None, |a: Option<Box<dyn ProofObj>>, _| a.as_deref().unwrap_or(p).sub());
    let lay: &dyn ProofObj = lay.as_deref().unwrap_or(p);
    let (lemma, path) = (lay.lemma(), lay.path());
    let mut u = lemma.clone();
    // the item of an upper layer is the root of the layer below
    u.extend(lay.sub().map(|q| q.root()));
    let all = u.len();
    u.sort();
    u.dedup();
    if u.len() < all || lay.item() == lay.root() {
        return;
    }
    probe("reordered");
    for _ in 0..4 {
        let (x, y) = (rng.below(lemma.len()), rng.below(lemma.len()));
        if x == y {
            continue;
        }
        let mut l = lemma.clone();
        match rng.below(3) {
            0 => l.swap(x, y),
            1 => l[x] = l[y].clone(),
            _ => {
                let z = l.remove(x);
                l.insert(y, z);
            }
        }
        let ok = attempt(|| p.with_lemma(d, &l).validate());
        check!(!matches!(ok, Ok(true)), class, "{}: a proof with lemma entries {} and {} of layer {} exchanged is accepted", what, x, y, d);
    }
    probe("other-path");
    for _ in 0..3 {
        if path.is_empty() {
            break;
        }
        let k = rng.below(path.len());
        let mut q = path.clone();
        q[k] = rng.below(9);
        if q[k] == path[k] {
            continue;
        }
        let ok = attempt(|| p.with_path(d, q.clone()).and_then(|p| p.validate()));
        check!(!matches!(ok, Ok(true)), class, "{}: a proof with path {:?} changed to {:?} in layer {} is accepted", what, path, q, d);
    }
}

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    if r.chance(1, 4) {
        return gen_compound(r, seed);
    }
    let wl = *r.pick(&["rest", "rest", "rest-after-open", "flip", "flip", "tamper"]);
    let mut c = base_case(r, wl, &["disk"], 1024);
    let forms: &[&str] = match wl {
        "flip" => &["disk", "disk-path", "lc-v1", "lc-v2", "lc-v2-set"],
        "tamper" => &["disk", "mmap"],
        _ => FORMS,
    };
    let f = pick_form(r, &mut c, forms);
    c.ctor = f;
    c.knob = vec![r.below(4) as i64];
    for _ in 0..r.range(1, 4) {
        let kinds: &[&str] = if wl == "rest-after-open" { &["bit", "bit", "byte", "zero", "swap", "rand", "root", "tree", "tree"] } else { &["bit", "bit", "byte", "zero", "swap", "rand", "root"] };
        c.ops.push(op(*r.pick(kinds), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let mut io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    if wl == "flip" {
        io.gen.flip = true;
        io.gen.rates = vec![(Class::Read, *r.pick(&[1, 2, 4, 10, 40]))];
        io.gen.budget = *r.pick(&[1, 1, 2, 5]);
    }
    spec("", seed, c, sp, io)
}

/// A generated proof must be rejected, or be the original leaf's under the original root.
fn judge(class: &str, what: &str, p: &dyn ProofObj, w: &World, i: usize) {
    run::checked(1);
    match attempt(|| p.validate()) {
        Ok(true) => {
            check!(p.root() == w.m.root(), class, "{}: accepted proof of leaf {} under another root", what, i);
            check!(p.item() == w.m.at(i), class, "{}: accepted proof of leaf {} for another value", what, i);
            probe("still-right");
        }
        Ok(false) => probe("rejected"),
        Err(Fail::Err(_)) => probe("rejected"),
        Err(Fail::Panic(m)) => violation(class, &format!("{}: validating a proof of leaf {} panicked: {}", what, i, m)),
    }
    // with the leaf's data only that leaf may be accepted
    if w.c.kn(0) == 1 {
        for j in [i, (i + 1) % w.m.leafs] {
            let ok = matches!(attempt(|| p.validate_with_data(&w.items[j * w.m.n..(j + 1) * w.m.n])), Ok(true));
            if ok {
                check!(w.m.at(j) == w.m.at(i) && p.root() == w.m.root(), class, "{}: proof of leaf {} accepted with the data of leaf {}", what, i, j);
            }
        }
    }
}
fn all_proofs(class: &str, what: &str, t: &dyn DynTree, w: &World, rng: &mut Rng) {
    let lc = w.c.store == "lc";
    for i in sample(rng, w.m.leafs, 40) {
        let mut v = vec![];
        if !lc {
            v.push(attempt(|| t.proof(i)));
        }
        if lc || w.c.store == "disk" {
            v.push(attempt(|| t.cached_proof(i, None)));
            v.push(attempt(|| t.cached_proof(i, Some(w.c.r))));
        }
        for p in v {
            match p {
                Ok(p) => judge(class, what, &*p, w, i),
                Err(Fail::Err(_)) => probe("proof-error"),
                Err(Fail::Panic(m)) => violation(class, &format!("{}: proof of leaf {} panicked: {}", what, i, m)),
            }
        }
    }
}
fn corrupt(b: &mut [u8], o: &run::Op, n: usize, is_base: bool) {
    if b.is_empty() {
        return;
    }
    let k = o.a % b.len();
    match o.k.as_str() {
        "bit" => b[k] ^= 1 << (o.b % 8),
        "byte" => b[k] ^= 1 + (o.b % 255) as u8,
        "zero" => {
            probe("zeroed");
            let e = (k + 1 + o.b % (4 * n)).min(b.len());
            b[k..e].fill(0);
        }
        "swap" => {
            probe("swapped");
            let (x, y) = (k / n, (o.b % b.len()) / n);
            for j in 0..n {
                if x * n + j < b.len() && y * n + j < b.len() {
                    b.swap(x * n + j, y * n + j);
                }
            }
        }
        "root" if !is_base => {
            probe("root-corrupted");
            let l = b.len();
            b[l - 1 - o.b % n] ^= 1 + (o.c % 255) as u8;
        }
        _ => {
            let e = (k + 1 + o.b % (4 * n)).min(b.len());
            let mut r = Rng::new(o.c);
            b[k..e].iter_mut().for_each(|x| *x = r.next() as u8);
        }
    }
}

pub fn run(s: &RunSpec) {
    if s.case.sub > 0 {
        return run_compound(s);
    }
    let c = &s.case;
    let class = "accepted-corruption";
    let form = c.ctor.clone();
    // from_data: the proofs can also be validated with the leaf data
    let ctor = if c.kn(0) == 1 { "from_data" } else { "new" };
    let w = World::seeded(c, c.dseed, ctor);
    let mut rng = rng_of(c, 11);
    place_form(&w, &form, &dir(), "t");
    let what = format!("{} {} {} leafs r{}", c.wl, form, w.m.leafs, c.r);
    probe(&c.wl);
    match c.wl.as_str() {
        "rest" | "rest-after-open" => {
            let early = c.wl != "rest";
            let t0 = if early { Some(must(class, "open", || open_form(&w, &form, &dir(), "t"))) } else { None };
            for o in &c.ops {
                if o.k == "tree" {
                    // all of it, or one end of it, is that of another tree of this shape
                    probe("another-tree");
                    let w2 = World::seeded(c, c.dseed ^ (1 + o.c % 2), ctor);
                    let mut b = get_file(&path_of("t")).unwrap();
                    let f = w2.file(form_kind(&form, c.r));
                    let k = if o.b % 2 == 0 { 0 } else { o.a % b.len() / w.m.n * w.m.n };
                    if o.b % 4 < 2 {
                        b[k..].copy_from_slice(&f[k..]);
                    } else {
                        let k = b.len() - k;
                        b[..k].copy_from_slice(&f[..k]);
                    }
                    patch(&path_of("t"), &b);
                    if form.starts_with("lc-v2") && o.c % 3 > 0 {
                        let off = form_offset(&w, &form);
                        let mut b = vec![0xEE; off];
                        b.extend_from_slice(w2.base());
                        if form == "lc-v2-source" {
                            crate::source::set(b);
                        } else {
                            patch(&dir().join("base-t"), &b);
                        }
                    }
                    continue;
                }
                let in_base = form.starts_with("lc-v2") && o.c % 3 == 0;
                if in_base {
                    probe("base-corrupted");
                    let off = form_offset(&w, &form);
                    let mut b = vec![0xEE; off];
                    b.extend_from_slice(w.base());
                    corrupt(&mut b[off..], o, w.m.n, true);
                    if form == "lc-v2-source" {
                        crate::source::set(b);
                    } else {
                        patch(&dir().join("base-t"), &b);
                    }
                } else {
                    let mut b = get_file(&path_of("t")).unwrap();
                    corrupt(&mut b, o, w.m.n, false);
                    patch(&path_of("t"), &b);
                }
            }
            fs::fs().faults_on = true;
            let t = match t0 {
                Some(t) => t,
                None => match attempt(|| open_form(&w, &form, &dir(), "t")) {
                    Ok(t) => t,
                    Err(Fail::Err(_)) => {
                        probe("unopenable");
                        return;
                    }
                    Err(Fail::Panic(m)) => violation(class, &format!("{}: opening panicked: {}", what, m)),
                },
            };
            all_proofs(class, &what, &*t, &w, &mut rng);
        }
        "flip" => {
            fs::fs().begin_op(1);
            let before = rng.chance(1, 3);
            fs::fs().faults_on = before;
            let t = match attempt(|| open_form(&w, &form, &dir(), "t")) {
                Ok(t) => t,
                Err(e) => violation(class, &format!("{}: open failed: {:?}", what, e)),
            };
            fs::fs().faults_on = true;
            all_proofs(class, &what, &*t, &w, &mut rng);
            fs::fs().faults_on = false;
        }
        _ => {
            let t = must(class, "open", || open_form(&w, &form, &dir(), "t"));
            for i in sample(&mut rng, w.m.leafs, 6) {
                let cached = form == "disk" && rng.chance(1, 3);
                let p = must(class, "proof", || if cached { t.cached_proof(i, None) } else { t.proof(i) });
                check_proof(class, &what, &*p, &w.m, i);
                let l = p.lemma().len();
                for k in sample(&mut rng, l, 24) {
                    let q = p.tamper(0, k, rng.below(w.m.n * 8));
                    let ok = attempt(|| q.validate());
                    check!(!matches!(ok, Ok(true)), class, "{}: proof of leaf {} with lemma entry {} of {} altered is accepted", what, i, k, l);
                    if matches!(ok, Err(Fail::Panic(_))) {
                        violation(class, "validating an altered proof panicked");
                    }
                    if c.kn(0) == 1 {
                        let ok = attempt(|| q.validate_with_data(&w.items[i * w.m.n..(i + 1) * w.m.n]));
                        check!(!matches!(ok, Ok(true)), class, "{}: altered proof accepted with data", what);
                    }
                }
                reshape(class, &what, &*p, 0, distinct(&w), &mut rng);
                if c.kn(0) == 1 {
                    probe("foreign-data");
                    let own = attempt(|| p.validate_with_data(&w.items[i * w.m.n..(i + 1) * w.m.n]));
                    check!(matches!(own, Ok(true)), class, "{}: proof of leaf {} rejected with its own data: {:?}", what, i, own);
                    for j in sample(&mut rng, w.m.leafs, 8) {
                        if w.items[j * w.m.n..(j + 1) * w.m.n] != w.items[i * w.m.n..(i + 1) * w.m.n] {
                            let ok = attempt(|| p.validate_with_data(&w.items[j * w.m.n..(j + 1) * w.m.n]));
                            check!(!matches!(ok, Ok(true)), class, "{}: proof of leaf {} accepted with the data of leaf {}", what, i, j);
                        }
                    }
                    let ok = attempt(|| p.validate_with_data(&w.items[i * w.m.n..(i + 1) * w.m.n - 1]));
                    check!(!matches!(ok, Ok(true)), class, "{}: proof accepted with truncated data", what);
                }
            }
        }
    }
}
/// overwrite in place (open handles and mappings see it)
fn patch(p: &std::path::PathBuf, b: &[u8]) {
    use std::io::Write;
    let _g = crate::sched::Bypass::new();
    let mut f = std::fs::OpenOptions::new().write(true).open(p).expect("harness: patch");
    f.write_all(b).expect("harness: patch");
}
