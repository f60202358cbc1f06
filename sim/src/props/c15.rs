//! C15: read-only storage stays usable and untouched.
use super::c02::{read_op, READS};
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::RunSpec;

const RO_FORMS: &[&str] = &["disk", "disk-path", "disk-config", "lc-v1", "lc-v1-config", "lc-v2", "lc-v2-set", "lc-v2-source"];
pub const PROBES: &[&str] = &["EACCES", "EROFS", "write-refused", "push-refused", "bulk-refused", "compact-refused", "concurrent", "compact-refused-then-read", "compound"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = base_case(r, "read-only", &["disk"], 2048);
    let f = pick_form(r, &mut c, RO_FORMS);
    c.ctor = f;
    c.knob = vec![r.chance(1, 2) as i64];
    c.clients = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..r.range(4, 24) {
        let k = if r.chance(1, 2) { *r.pick(READS) } else { *r.pick(&["w", "p", "b", "compact"]) };
        c.ops.push(op(k, r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "read-only";
    let form = c.ctor.clone();
    let w = World::seeded(c, c.dseed, "new");
    let mut rng = rng_of(c, 15);
    place_form(&w, &form, &dir(), "t");
    let p = path_of("t");
    let before = get_file(&p).unwrap();
    let errno = if c.kn(0) == 0 { libc::EACCES } else { libc::EROFS };
    probe(if c.kn(0) == 0 { "EACCES" } else { "EROFS" });
    fs::fs().set_read_only(&p.to_string_lossy(), errno);
    let what = format!("{} read-only ({}) {} leafs r{}", form, if errno == libc::EACCES { "permission" } else { "read-only file system" }, w.m.leafs, c.r);
    fs::fs().faults_on = true;
    let mut t = must(class, &format!("open {}", what), || open_form(&w, &form, &dir(), "t"));
    // the store itself, for the modifying calls
    let len = w.m.len();
    let store = combo_store(&w, &form);
    let mut st = must(class, &format!("open the store {}", what), || store.open_store(len, &cfg("t", c.r)));
    let same = |step: &str| check!(get_file(&p).as_deref() == Some(&before[..]), class, "{}: {} changed the file", what, step);
    for (k, o) in c.ops.iter().enumerate() {
        fs::fs().begin_op(k as u32 + 1);
        let b = crate::model::values(o.c, 1 + o.b % 5, w.m.n);
        let one = &b[..w.m.n];
        match o.k.as_str() {
            "w" | "p" | "b" => {
                let r = match o.k.as_str() {
                    "w" => attempt(|| st.write_at(one, o.a % len)),
                    "p" => attempt(|| st.push(one)),
                    _ => attempt(|| st.copy_from_slice(&b, o.a % len)),
                };
                probe(match o.k.as_str() {
                    "w" => "write-refused",
                    "p" => "push-refused",
                    _ => "bulk-refused",
                });
                check!(r.is_err(), class, "{}: {} succeeded on a read-only file", what, o.k);
                check!(st.len() == len, class, "{}: length became {} after a refused {}", what, st.len(), o.k);
                if form_store(&form) == "disk" || form.starts_with("lc-v1") {
                    let i = o.a % w.m.leafs;
                    let g = must(class, &format!("{}: read after a refused {}", what, o.k), || st.read_at(i));
                    check!(g == w.m.at(i), class, "{}: read after a refused {} is wrong", what, o.k);
                }
            }
            "compact" => {
                probe("compact-refused");
                let r = attempt(|| t.compact(cfg("t", c.r), 1 + (o.a % 2) as u32));
                check!(!matches!(r, Ok(true)), class, "{}: compaction succeeded on a read-only file", what);
                probe("compact-refused-then-read");
                read_op(class, &*t, &w, &crate::run::op("at", o.b, 0, 0));
            }
            _ => read_op(class, &*t, &w, o),
        }
        same(&o.k);
    }
    if c.clients > 1 {
        probe("concurrent");
        let (t, w) = (&*t, &w);
        clients(class, (0..c.clients).map(|k| Box::new(move || c.ops.iter().enumerate().filter(|x| x.0 % c.clients == k && READS.contains(&x.1.k.as_str())).for_each(|x| read_op(class, t, w, x.1))) as Box<dyn FnOnce() + Send>).collect());
    }
    fs::fs().faults_on = false;
    verify_form(class, &what, &*t, &w, &form, &mut rng, Depth { nodes: 4, proofs: 4 });
    same("reading");
}
fn combo_store(w: &World, form: &str) -> Box<dyn crate::tree::Combo> {
    crate::tree::combo(w.c.elem, w.c.arity, form_store(form))
}
