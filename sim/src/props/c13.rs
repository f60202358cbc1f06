//! C13: external base data is read from exactly the right place or not at all.
use super::c02::{read_eval, READS};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{Op, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["file", "set", "source", "shared-replica", "unaligned", "out-of-order-offsets", "cut-replica", "failing-source", "read-error", "cut-inside-leaf", "concurrent", "healthy", "far-offset", "compound", "beyond-the-cut", "moved"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let how = *r.pick(&["file", "file", "set", "source"]);
    let mut c = base_case(r, how, &["lc"], 2048);
    c.cfg = true;
    c.r = r.below(default_r(&c) + 1);
    c.sub = r.range(1, 4);
    // knob 0: where the replica is cut (permille of its length, 1000 = whole), 1: offset step, 2: a hole before everything
    c.knob = vec![if r.chance(1, 3) { r.below(1000) as i64 } else { 1000 }, *r.pick(&[0, 1, 7, 32, 100, 4096]), if r.chance(1, 6) { *r.pick(&[1 << 31, (1 << 32) - 64, 1 << 32, (5 << 32) + 3, 1 << 40]) } else { 0 }];
    c.clients = if r.chance(1, 2) { r.range(2, 3) } else { 1 };
    for _ in 0..r.range(4, 24) {
        c.ops.push(op(*r.pick(READS), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let mut io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    if r.chance(1, 2) {
        io.gen.hard = true;
        io.gen.rates = vec![(if how == "source" { Class::Source } else { Class::Read }, *r.pick(&[1, 2, 4, 12]))];
        io.gen.budget = *r.pick(&[1, 2, 5, 50]);
    }
    spec("", seed, c, sp, io)
}
fn total_hard() -> usize {
    fs::fs().fired.iter().filter(|f| !fs::is_benign(f.class, f.kind)).count()
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "external-base";
    let mut rng = rng_of(c, 13);
    let k = c.sub;
    if k > 1 {
        probe("shared-replica");
    }
    probe(&c.wl);
    let step = c.kn(1) as usize;
    if step % c.elem != 0 {
        probe("unaligned");
    }
    let hole = c.kn(2) as usize;
    if hole > 0 {
        probe("far-offset");
    }
    // the trees, in replica order
    let ws: Vec<World> = (0..k).map(|j| World::seeded(c, c.dseed.wrapping_add(j as u64 * 31), "from_byte_slice")).collect();
    let mut rep: Vec<u8> = vec![];
    let mut offs = vec![0; k];
    let mut order: Vec<usize> = (0..k).collect();
    for j in (1..k).rev() {
        order.swap(j, rng.below(j + 1));
    }
    if order.windows(2).any(|x| x[0] > x[1]) {
        probe("out-of-order-offsets");
    }
    for j in &order {
        rep.extend(std::iter::repeat(0xE7).take(step));
        offs[*j] = hole + rep.len();
        rep.extend_from_slice(ws[*j].base());
    }
    let whole = c.kn(0) >= 1000;
    let cut = if whole { rep.len() } else { rep.len() * c.kn(0) as usize / 1000 };
    if whole {
        rep.extend_from_slice(&[0xDD; 50]);
    } else {
        probe("cut-replica");
        if cut % c.elem != 0 {
            probe("cut-inside-leaf");
        }
        rep.truncate(cut);
    }
    let cut = hole + cut;
    let p = dir().join("replica");
    put_file_at(&p, &rep, hole as u64);
    if c.wl == "source" {
        crate::source::set_at(rep.clone(), hole);
    }
    let mut ts: Vec<Tree> = vec![];
    for (j, w) in ws.iter().enumerate() {
        let id = format!("t{}", j);
        put_file(&path_of(&id), &w.file(Kind::V2(c.r)));
        let (l, n, cf) = (w.m.leafs, w.m.len(), cfg(&id, c.r));
        ts.push(must(class, "open", || match c.wl.as_str() {
            "file" => w.lc().open_with_reader(l, n, &cf, &p, offs[j]),
            "set" => w.lc().open_then_set(l, n, &cf, &p, offs[j]),
            _ => w.lc().open_with_source(l, n, &cf, offs[j]),
        }));
    }
    let ws = &ws;
    let mut owned = ts;
    let ts = &owned;
    let offs = &offs;
    let one = |o: &Op| {
        let j = (o.c as usize >> 8) % k;
        let w = &ws[j];
        let (what, r) = read_eval(&*ts[j], w, o);
        let what = format!("{} tree {} of {} at offset {} (replica of {} bytes): {}", c.wl, j, k, offs[j], cut, what);
        // the base of this tree is entirely there
        let complete = offs[j] + w.base().len() <= cut;
        match r {
            Ok(None) => {}
            Ok(Some(m)) => violation(class, &format!("{}: {}", what, m)),
            Err(e) => {
                if total_hard() > 0 {
                    probe(if c.wl == "source" { "failing-source" } else { "read-error" });
                }
                check!(total_hard() > 0 || !complete, class, "{}: failed although the source is healthy: {:?}", what, e);
                if let Fail::Panic(m) = e {
                    violation(class, &format!("{}: panicked: {}", what, m));
                }
            }
        }
    };
    fs::fs().begin_op(1);
    fs::fs().faults_on = true;
    if c.clients > 1 {
        probe("concurrent");
        let one = &one;
        clients(class, (0..c.clients).map(|t| Box::new(move || c.ops.iter().enumerate().filter(|x| x.0 % c.clients == t).for_each(|x| one(x.1))) as Box<dyn FnOnce() + Send>).collect());
    } else {
        c.ops.iter().for_each(|o| one(o));
    }
    heal();
    // every single leaf, and ranges across the cut, without further faults
    for (j, w) in ws.iter().enumerate() {
        let t = &*ts[j];
        let n = w.m.n;
        for i in sample(&mut rng, w.m.leafs, 40) {
            let there = offs[j] + (i + 1) * n <= cut;
            let mut b = vec![0xA5; n];
            let got = [attempt(|| t.read_at(i)), attempt(|| t.read_into(i, &mut b)).map(|_| b)];
            for (q, g) in got.into_iter().enumerate() {
                match g {
                    Ok(g) => check!(g == w.m.at(i), class, "{} leaf {} of tree {} at offset {}: wrong bytes (route {})", c.wl, i, j, offs[j], q),
                    Err(e) => check!(!there, class, "{} leaf {} of tree {}: not readable: {:?}", c.wl, i, j, e),
                }
            }
            let e = i + 1 + rng.below(w.m.leafs - i);
            let there = offs[j] + e * n <= cut;
            let mut b = vec![0xA5; n * (e - i)];
            let got = [attempt(|| t.read_range(i, e)), attempt(|| t.read_range_into(i, e, &mut b)).map(|_| b)];
            for (q, g) in got.into_iter().enumerate() {
                match g {
                    Ok(g) => check!(g == w.m.range(i, e), class, "{} leaves {}..{} of tree {} at offset {}: wrong bytes (route {})", c.wl, i, e, j, offs[j], q),
                    Err(x) => check!(!there, class, "{} leaves {}..{} of tree {}: not readable: {:?}", c.wl, i, e, j, x),
                }
            }
        }
        if offs[j] + w.base().len() <= cut {
            probe("healthy");
            verify_cached(class, "with a healthy source", t, w, c.r, &mut rng, Depth { nodes: 4, proofs: 4 });
        }
    }
    // the base data moves: from then on it is read from the new place only
    if c.wl != "source" && rng.below(2) == 0 {
        probe("moved");
        let j = rng.below(k);
        let w = &ws[j];
        let i = rng.below(w.m.leafs);
        let before = attempt(|| owned[j].read_at(i)).ok();
        let t = &mut owned[j];
        check!(attempt(|| t.set_reader(&dir().join("nowhere"))).is_err(), class, "a missing file was accepted as external source");
        check!(attempt(|| t.read_at(i)).ok() == before, class, "{} leaf {}: another answer after a refused change of the source", c.wl, i);
        let q = dir().join("moved");
        put_file(&q, w.base());
        let t = &mut owned[j];
        must(class, "move the source", || t.set_reader(&q));
        put_file_at(&p, &vec![0x5A; rep.len()], hole as u64);
        verify_cached(class, "after the source moved", &*owned[j], w, c.r, &mut rng, Depth { nodes: 4, proofs: 4 });
    }
}
