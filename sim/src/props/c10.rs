//! C10: files of the wrong size are refused, and refusal does not touch them.
use super::util::*;
use crate::fs::{self, Class};
use crate::rng::Rng;
use crate::run::RunSpec;

pub const PROBES: &[&str] = &["truncated", "extended", "extended-far", "empty", "off-by-one", "other-format", "other-rows", "torn-element", "missing", "right-size", "refused-by-fault", "compound", "compound-refused"];

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = base_case(r, "sizes", &["disk"], 2048);
    let f = pick_form(r, &mut c, FORMS);
    c.ctor = f;
    for _ in 0..r.range(2, 10) {
        c.ops.push(op(*r.pick(&["cut", "cut", "extend", "far", "empty", "one", "one", "form", "form", "rows", "elem", "missing", "right"]), r.next() as u32 as usize, r.next() as u32 as usize, r.next()));
    }
    let sp = sched_plan(r);
    let io = match r.below(4) {
        0 => benign(r),
        1 => hard(r, &[Class::Stat, Class::Stat, Class::Open, Class::Read]),
        _ => no_faults(r),
    };
    spec("", seed, c, sp, io)
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "wrong-size";
    let form = c.ctor.clone();
    let w = World::seeded(c, c.dseed, "new");
    let mut rng = rng_of(c, 10);
    place_base(&w, &form, &dir(), "t");
    let n = w.m.n;
    let len = w.m.len();
    let good = w.file(form_kind(&form, c.r));
    let full_sz = w.file(Kind::Full).len();
    let v1_sz = w.file(Kind::V1(c.r)).len();
    let v2_sz = w.file(Kind::V2(c.r)).len();
    // sizes that this route is allowed to accept
    let valid: Vec<usize> = match form.as_str() {
        "lc-v1" | "lc-v1-config" => vec![v1_sz, v2_sz],
        "lc-v2-set" => vec![v1_sz, v2_sz],
        "lc-v2" | "lc-v2-source" => vec![v2_sz],
        _ => vec![full_sz],
    };
    let p = path_of("t");
    for (k, o) in c.ops.iter().enumerate() {
        let mut b = good.clone();
        // bytes (a hole) behind the contents
        let mut far = 0usize;
        match o.k.as_str() {
            "cut" => {
                probe("truncated");
                b.truncate(o.a % b.len());
            }
            "extend" => {
                probe("extended");
                b.extend(std::iter::repeat(0x5A).take(1 + o.a % (3 * n + 5000 * (o.b % 2))));
            }
            "far" => {
                probe("extended-far");
                far = [1usize << 31, 1 << 32, 3 << 32, (1 << 32) * n, 1 << 40][o.a % 5];
            }
            "empty" => {
                probe("empty");
                b.clear();
            }
            "one" => {
                probe("off-by-one");
                if o.a % 2 == 0 {
                    b.pop();
                } else {
                    b.push(0);
                }
            }
            "elem" => {
                probe("torn-element");
                let d = [1, n, n - 1, n + 1][o.a % 4];
                if o.b % 2 == 0 {
                    b.truncate(b.len().saturating_sub(d));
                } else {
                    b.extend(vec![1u8; d]);
                }
            }
            "form" => {
                probe("other-format");
                b = w.file([Kind::Full, Kind::V1(c.r), Kind::V2(c.r)][o.a % 3]);
            }
            "rows" => {
                probe("other-rows");
                let r2 = o.a % (w.m.max_discard() + 1);
                b = w.file([Kind::V1(r2), Kind::V2(r2)][o.b % 2]);
            }
            "missing" => {
                probe("missing");
                {
                    let _g = crate::sched::Bypass::new();
                    let _ = std::fs::remove_file(&p);
                }
                if form.ends_with("-config") {
                    continue;
                }
                fs::fs().begin_op(k as u32 + 1);
                fs::fs().faults_on = true;
                match attempt(|| open_form(&w, &form, &dir(), "t")) {
                    Ok(_) => violation(class, &format!("{}: a missing file was opened", form)),
                    Err(Fail::Panic(m)) => violation(class, &format!("{}: opening a missing file panicked: {}", form, m)),
                    Err(_) => {}
                }
                check!(attempt(|| w.lc().is_consistent(len, &cfg("t", c.r))).map_or(true, |x| !x), class, "a missing file is reported as consistent");
                fs::fs().faults_on = false;
                check!(get_file(&p).is_none(), class, "{}: refusing a missing file created it", form);
                continue;
            }
            _ => probe("right-size"),
        }
        put_file(&p, &b);
        if far > 0 {
            set_size(&p, (b.len() + far) as u64);
        }
        let size = b.len() + far;
        fs::fs().begin_op(k as u32 + 1);
        fs::fs().faults_on = true;
        let what = format!("{} {} leafs arity {} r{} with a file of {} bytes (right: {:?})", form, w.m.leafs, c.arity, c.r, size, valid);
        let r = attempt(|| open_form(&w, &form, &dir(), "t"));
        let st = attempt(|| w.lc().open_store_only(&form, len, &cfg("t", c.r), &dir().join("base-t"), form_offset(&w, &form)));
        let q = [
            ("DiskStore", attempt(|| w.lc().disk_is_consistent(len, &cfg("t", c.r))), full_sz),
            ("LevelCacheStore", attempt(|| w.lc().is_consistent(len, &cfg("t", c.r))), v2_sz),
            ("LevelCacheStore v1", attempt(|| w.lc().is_consistent_v1(len, &cfg("t", c.r))), v1_sz),
        ];
        fs::fs().faults_on = false;
        let hard = fs::fs().hard_fired_in_op;
        heal();
        match r {
            Ok(t) => {
                check!(valid.contains(&size), class, "{}: opened", what);
                if b == good {
                    verify_form(class, &what, &*t, &w, &form, &mut rng, Depth { nodes: 3, proofs: 3 });
                }
            }
            Err(Fail::Panic(m)) => violation(class, &format!("{}: panicked: {}", what, m)),
            Err(Fail::Err(_)) if hard > 0 => probe("refused-by-fault"),
            Err(Fail::Err(e)) => check!(b != good || far > 0, class, "{}: the right file was refused: {}", what, e),
        }
        match st {
            Ok(x) => {
                check!(valid.contains(&size), class, "{}: opened as a store", what);
                check!(x == len, class, "{}: the store says it has {} elements", what, x);
            }
            Err(Fail::Panic(m)) => violation(class, &format!("{}: opening the store panicked: {}", what, m)),
            Err(Fail::Err(_)) if hard > 0 => {}
            Err(Fail::Err(e)) => check!(b != good || far > 0, class, "{}: the right file was refused as a store: {}", what, e),
        }
        for (who, r, sz) in q {
            match r {
                Ok(x) => check!(x == (size == sz), class, "{} consistency query says {} for {} bytes, right size is {}", who, x, size, sz),
                Err(Fail::Err(_)) if hard > 0 => {}
                Err(e) => violation(class, &format!("{} consistency query failed on an existing file of {} bytes: {:?}", who, size, e)),
            }
        }
        if far > 0 {
            check!(file_size(&p) == size as u64, class, "{}: the file was resized", what);
            set_size(&p, b.len() as u64);
        }
        check!(get_file(&p).as_deref() == Some(&b[..]), class, "{}: the file was modified", what);
    }
}
