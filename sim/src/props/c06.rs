//! C06: a failed write leaves length and other elements intact.
use super::c04::{capacity, compare, create, gen_ops, gen_store, maybe_large, Arr};
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::RunSpec;

pub const PROBES: &[&str] = &["write-failed", "torn-write", "push-failed", "bulk-failed", "full", "remap-failed", "retried", "megabytes"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = gen_store(r, "failing-writes", &["disk", "disk", "mmap", "lc"]);
    let n = if maybe_large(r, &mut c) { r.range(3, 10) } else { r.range(4, 30) };
    gen_ops(r, &mut c, n, &["w", "w", "b", "b", "b", "p", "p", "full", "unmap", "sync"]);
    let sp = sched_plan(r);
    let mut io = hard(r, &[Class::Write, Class::Write, Class::Mmap, Class::Fsync]);
    io.gen.budget = *r.pick(&[1, 2, 4, 10]);
    if c.store == "mmap" {
        io.gen.rates = vec![(Class::Mmap, *r.pick(&[1, 2, 3]))];
    }
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "failed-write";
    let mut m = Arr::new(c);
    let cap = capacity(c);
    let mut st = create(c, &mut m);
    for (k, o) in c.ops.iter().enumerate() {
        let what = format!("{} cap {} op {} {}({}, {})", c.store, cap, k, o.k, o.a, o.b);
        let (start, b) = match o.k.as_str() {
            "w" => (o.a, m.bytes(o)),
            "b" => (o.a, m.bytes(o)),
            "p" if m.len() < cap => (m.len(), m.bytes(o)),
            "p" => {
                probe("full");
                let r = faulty(k as u32 + 1, || st.push(&m.bytes(o))).0;
                heal();
                check!(r.is_err(), class, "{}: push on a full store succeeded", what);
                compare(class, &what, &*st, &m);
                continue;
            }
            "full" => {
                probe("full");
                let b = crate::model::values(o.c, o.b + 1, c.elem);
                let one = o.c % 3 == 0;
                let r = faulty(k as u32 + 1, || if one { st.write_at(&b[..c.elem], cap + o.a % 3) } else { st.copy_from_slice(&b, cap - o.b) }).0;
                heal();
                check!(r.is_err(), class, "{}: a write beyond capacity succeeded", what);
                if !m.mapped && c.store == "mmap" {
                    must(class, "reinit", || st.reinit());
                    m.mapped = true;
                }
                compare(class, &what, &*st, &m);
                continue;
            }
            "unmap" if c.store == "mmap" => {
                must(class, &what, || st.compact(c.arity, cfg("s", 0), 2));
                m.mapped = false;
                continue;
            }
            "sync" => {
                let (r, h) = faulty(k as u32 + 1, || st.sync());
                heal();
                check!(r.is_ok() || h > 0, class, "{}: sync failed without a fault: {:?}", what, r);
                compare(class, &what, &*st, &m);
                continue;
            }
            _ => continue,
        };
        let go = |st: &mut Box<dyn crate::tree::DynStore>| match o.k.as_str() {
            "w" => st.write_at(&b, start),
            "b" => st.copy_from_slice(&b, start),
            _ => st.push(&b),
        };
        let (r, h) = faulty(k as u32 + 1, || go(&mut st));
        let torn = fs::fs().fired.last().map_or(false, |f| f.op == k as u32 + 1 && matches!(f.kind, fs::Kind::Torn(..)));
        heal();
        match r {
            Ok(()) => {
                m.put(start, &b);
                m.mapped = true;
            }
            Err(e) => {
                check!(h > 0, class, "{}: failed without a fault: {:?}", what, e);
                probe(match o.k.as_str() {
                    "w" => "write-failed",
                    "b" => "bulk-failed",
                    _ => "push-failed",
                });
                if torn {
                    probe("torn-write");
                }
                check!(st.len() == m.len(), class, "{}: length became {} after a failed write, was {}", what, st.len(), m.len());
                if !m.mapped {
                    probe("remap-failed");
                    must(class, "reinit", || st.reinit());
                    m.mapped = true;
                }
                if m.len() > 0 {
                    let g = must(class, &format!("{}: read back", what), || st.read_range(0, m.len()));
                    let (ra, rb) = (start * m.n, start * m.n + b.len());
                    for i in 0..g.len() {
                        let inside = i >= ra && i < rb;
                        let ok = g[i] == m.data[i] || (inside && g[i] == b[i - ra]);
                        if !ok {
                            violation(class, &format!("{}: after the failed write byte {} of element {} is neither old nor new", what, i % m.n, i / m.n));
                        }
                    }
                    crate::run::checked(g.len() as u64);
                    m.data = g;
                }
                probe("retried");
                must(class, &format!("{}: retry", what), || go(&mut st));
                m.put(start, &b);
                // what a failed write left beyond the old length may show up in the gap
                if let Ok(g) = attempt(|| st.read_range(0, st.len())) {
                    check!(g[start * m.n..start * m.n + b.len()] == b[..], class, "{}: retried write does not read back", what);
                }
            }
        }
        compare(class, &what, &*st, &m);
    }
    if !m.mapped {
        must(class, "reinit", || st.reinit());
    }
    compare(class, "at the end", &*st, &m);
}
