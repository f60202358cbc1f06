//! C08: data acknowledged by a successful sync survives power loss.
use super::c04::{capacity, create, gen_ops, gen_store, Arr};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::{self, RunSpec};
use crate::tree::*;

pub const PROBES: &[&str] = &["power-loss-after-ack", "crash-inside-sync", "rewritten-after-ack", "failed-sync", "tree", "tree-after-sync", "before-any-sync"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let tree = r.chance(1, 3);
    let mut c = if tree {
        let mut c = base_case(r, "tree", &["disk", "mmap", "lc"], 4096);
        pick_ctor(r, &mut c);
        pick_r(r, &mut c);
        c
    } else {
        let mut c = gen_store(r, "store", &["disk", "mmap", "lc"]);
        let n = r.range(3, 30);
        gen_ops(r, &mut c, n, &["w", "w", "b", "b", "p", "sync", "sync", "unmap", "reopen"]);
        c
    };
    c.cfg = true;
    let sp = sched_plan(r);
    let mut io = if r.chance(1, 4) { hard(r, &[Class::Fsync]) } else { no_faults(r) };
    if tree {
        io = no_faults(r);
    }
    crashy(r, &mut io, 6);
    spec("", seed, c, sp, io)
}

struct Hist {
    tag: u64,
    /// bytes written: (start byte, bytes)
    w: Option<(usize, Vec<u8>)>,
    /// acknowledged sync
    ack: bool,
}

pub fn run(s: &RunSpec) {
    if s.case.wl == "tree" {
        return tree(s);
    }
    let c = &s.case;
    let class = "lost-after-sync";
    let cap = capacity(c);
    let mut m = Arr::new(c);
    fs::fs().start_crash_tracking();
    fs::fs().tag = 0;
    let mut st = create(c, &mut m);
    let mut hist = vec![Hist { tag: 0, w: if m.data.is_empty() { None } else { Some((0, m.data.clone())) }, ack: false }];
    for (k, o) in c.ops.iter().enumerate() {
        let t = 2 * (k as u64 + 1);
        fs::fs().tag = t;
        let b = m.bytes(o);
        let mut w = None;
        match o.k.as_str() {
            "w" | "b" => w = Some((o.a, b)),
            "p" if m.len() < cap => w = Some((m.len(), b)),
            "sync" => {
                let (r, h) = faulty(k as u32 + 1, || st.sync());
                heal();
                check!(r.is_ok() || h > 0, class, "sync failed without a fault: {:?}", r);
                if r.is_err() {
                    probe("failed-sync");
                }
                hist.push(Hist { tag: t + 1, w: None, ack: r.is_ok() });
                fs::fs().tag = t + 1;
                if r.is_ok() && o.c % 2 == 0 && fs::fs().snaps.len() < 10 {
                    fs::fs().crash_now(true);
                }
            }
            "unmap" if c.store == "mmap" => {
                must(class, "unmap", || st.compact(c.arity, cfg("s", 0), 2));
            }
            "reopen" => {
                drop(st);
                st = must(class, "reopen", || combo(c.elem, c.arity, &c.store).open_store(cap, &cfg("s", 0)));
                m.data.resize(cap * m.n, 0);
            }
            _ => {}
        }
        if let Some((start, b)) = w {
            hist.push(Hist { tag: t, w: Some((start * m.n, b.clone())), ack: false });
            must(class, "write", || if o.k == "w" { st.write_at(&b, start) } else if o.k == "b" { st.copy_from_slice(&b, start) } else { st.push(&b) });
            m.put(start, &b);
        }
        fs::fs().tag = t + 1;
    }
    fs::fs().crash_on = false;
    drop(st);
    let snaps = std::mem::take(&mut fs::fs().snaps);
    for (k, sn) in snaps.iter().enumerate() {
        let d = image_dir(k, &sn.files);
        // the last acknowledged sync that had completed
        let floor = hist.iter().rposition(|h| h.ack && h.tag <= sn.tag);
        if sn.tag > 0 && sn.tag % 2 == 0 && c.ops.get((sn.tag / 2) as usize - 1).map_or(false, |o| o.k == "sync") {
            probe("crash-inside-sync");
        }
        let r = attempt(|| combo(c.elem, c.arity, &c.store).open_store(cap, &cfg_at(&d, "s", 0)));
        let what = format!("{} {} during/after op {} of {}", c.store, if sn.power { "power loss" } else { "kill" }, sn.tag / 2, c.ops.len());
        let st = match (r, floor) {
            (Ok(x), _) => x,
            (Err(_), None) => {
                probe("before-any-sync");
                continue;
            }
            (Err(e), Some(_)) => violation(class, &format!("{}: the synced store does not open: {:?}", what, e)),
        };
        probe("power-loss-after-ack");
        let got = must(class, "read back", || st.read_range(0, cap));
        // replay history up to the crash: committed value and the later candidates per byte
        let mut base = vec![0u8; cap * m.n];
        let mut alt: Vec<Vec<u8>> = vec![];
        for (i, h) in hist.iter().enumerate() {
            if h.tag > sn.tag {
                break;
            }
            if let Some((a, b)) = &h.w {
                if floor.map_or(false, |f| i <= f) {
                    base[*a..*a + b.len()].copy_from_slice(b);
                } else {
                    probe("rewritten-after-ack");
                    if alt.is_empty() {
                        alt = vec![vec![]; cap * m.n];
                    }
                    for (j, x) in b.iter().enumerate() {
                        alt[a + j].push(*x);
                    }
                }
            }
        }
        for i in 0..got.len() {
            let ok = got[i] == base[i] || alt.get(i).map_or(false, |v| v.contains(&got[i]));
            if !ok {
                violation(class, &format!("{}: byte {} of element {} was acknowledged by a sync and is lost", what, i % m.n, i / m.n));
            }
        }
        run::checked(got.len() as u64);
    }
}

fn tree(s: &RunSpec) {
    let c = &s.case;
    probe("tree");
    let class = "lost-after-sync";
    let w = World::new(c);
    let mut rng = rng_of(c, 3);
    fs::fs().start_crash_tracking();
    fs::fs().tag = 1;
    let t = must(class, "build", || w.build(Some(cfg("t", c.r))));
    must(class, "sync", || t.sync());
    fs::fs().tag = 2;
    fs::fs().crash_now(true);
    if c.store != "lc" {
        let _ = must(class, "read", || t.read_range(w.m.len() - 1, w.m.len())).len();
        let _ = must(class, "proof", || t.proof(rng.below(w.m.leafs)));
    }
    fs::fs().crash_now(true);
    fs::fs().crash_on = false;
    drop(t);
    let snaps = std::mem::take(&mut fs::fs().snaps);
    for (k, sn) in snaps.iter().enumerate().filter(|x| x.1.tag == 2) {
        probe("tree-after-sync");
        let d = image_dir(k, &sn.files);
        let cf = cfg_at(&d, "t", c.r);
        let what = format!("{} tree of {} leafs after sync and power loss", c.store, w.m.leafs);
        if c.store == "lc" {
            let base = d.join("base");
            put_file(&base, w.base());
            let t = must(class, &what, || w.lc().open_with_reader(w.m.leafs, w.m.len(), &cf, &base, 0));
            verify_cached(class, &what, &*t, &w, c.r, &mut rng, Depth { nodes: 4, proofs: 4 });
        } else {
            let t = must(class, &what, || w.combo().open(w.m.leafs, w.m.len(), &cf));
            verify_full(class, &what, &*t, &w, &mut rng, Depth { nodes: 4, proofs: 4 });
        }
    }
}
