//! C17: trees sharing a directory are isolated; deletion removes exactly one.
use super::util::*;
use crate::fs;
use crate::rng::Rng;
use crate::run::{Op, RunSpec};
use crate::tree::*;
use std::collections::BTreeMap;

pub const PROBES: &[&str] = &["delete", "delete-by-tree", "delete-missing", "rebuilt-after-delete", "reopen", "compact", "prefix-ids", "two-directories", "failed-build-next-door", "compound"];
/// families of identifiers that could be confused with each other; before a '/': another directory
const FAMILIES: &[&[&str]] = &[
    &["t", "t1", "t10", "t-1", "T", "tt", "t.dat", "data", "t-data-t", "sc-02-data-t", "1", "0", "t ", "t_", "\u{fc}"],
    &["t", "t.1", "t.2", "t.10", "t.dat", "t.tmp", "t.bak", "t~"],
    &["1", "01", "001", "0", "00", "10", "-1", "1-"],
    &["T", "t", "Tt", "tT", "TT", "tt", "\u{fc}", "u"],
    &["a.b", "a.c", "a.b.c", "a.b.d", "a", "a.", "b", ".a"],
    &["t-0", "t-1", "t_0", "t_1", "t 0", "t 1", "t0", "t1"],
    &[
        "0123456789012345678901234567890123456789012345678901234567890123a",
        "0123456789012345678901234567890123456789012345678901234567890123b",
        "0123456789012345678901234567890123456789012345678901234567890123",
        "a123456789012345678901234567890123456789012345678901234567890123",
        "0123456789012345678901234567890",
        "012345678901234567890123456789a",
        "01234567",
        "0123456a",
    ],
    &["t", "d/t", "e/t", "d/t1", "t1", "e/T", "d/d", "d"],
];
/// where an identifier lives, and its name there
fn loc(key: &str) -> (std::path::PathBuf, &str) {
    match key.split_once('/') {
        Some((d, id)) => (dir().join(d), id),
        None => (dir(), key),
    }
}
fn cf_of(key: &str, r: usize) -> merkletree::store::StoreConfig {
    let (d, id) = loc(key);
    cfg_at(&d, id, r)
}
fn file_of(key: &str) -> std::path::PathBuf {
    let (d, id) = loc(key);
    merkletree::store::StoreConfig::data_path(&d, id)
}

pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = base_case(r, "shared-dir", &["disk"], 512);
    c.cfg = true;
    c.clients = r.range(2, 4);
    c.r = r.below(default_r(&c) + 1);
    // each client owns some identifiers
    let f = r.below(FAMILIES.len());
    let mut ids: Vec<i64> = (0..FAMILIES[f].len() as i64).map(|i| i + 100 * f as i64).collect();
    for j in (1..ids.len()).rev() {
        let k = r.below(j + 1);
        ids.swap(j, k);
    }
    c.knob = ids[..(2 * c.clients)].to_vec();
    for k in 0..c.clients {
        for _ in 0..r.range(3, 10) {
            c.ops.push(op(*r.pick(&["build", "build", "compact", "open", "check", "delete", "delete", "tdelete", "dmiss", "badbuild"]), r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
        }
    }
    let sp = sched_plan(r);
    let io = if r.chance(1, 3) { benign(r) } else { no_faults(r) };
    spec("", seed, c, sp, io)
}

/// what one identifier holds
struct Slot {
    w: World,
    form: String,
    bytes: Vec<u8>,
}

pub fn run(s: &RunSpec) {
    let c = &s.case;
    let class = "isolation";
    probe("prefix-ids");
    // a file that belongs to nobody
    put_file(&dir().join("keepme"), b"untouched");
    // and files of others whose names are close to those of the trees
    let mut foreign = vec![dir().join("keepme")];
    for j in 0..c.knob.len() {
        let own = file_of(FAMILIES[c.kn(j) as usize / 100][c.kn(j) as usize % 100]);
        if own.parent() != Some(&*dir()) {
            continue;
        }
        let name = own.file_name().unwrap().to_string_lossy().to_string();
        let stem = name.trim_end_matches(".dat").to_string();
        for x in [".bak", ".tmp", ".lock", ".old", ".json", "", ".dat.bak", ".dat.tmp", ".dat~"] {
            let f = dir().join(format!("{}{}", stem, x));
            if !foreign.contains(&f) {
                put_file(&f, b"untouched");
                foreign.push(f);
            }
        }
    }
    if c.kn(0) / 100 == FAMILIES.len() as i64 - 1 {
        probe("two-directories");
        let _g = crate::sched::Bypass::new();
        for d in ["d", "e"] {
            std::fs::create_dir(dir().join(d)).expect("harness: mkdir");
        }
    }
    fs::fs().faults_on = true;
    let all: std::sync::Mutex<BTreeMap<String, Option<Vec<u8>>>> = Default::default();
    let allr = &all;
    clients(
        class,
        (0..c.clients)
            .map(|k| {
                let ops: Vec<Op> = c.ops.iter().filter(|o| o.c == k as u64).cloned().collect();
                let ids: Vec<&str> = (2 * k..2 * k + 2).map(|j| FAMILIES[c.kn(j) as usize / 100][c.kn(j) as usize % 100]).collect();
                Box::new(move || {
                    let end = client(c, k, &ids, &ops);
                    // collected outside the simulated world: no scheduling while the lock is held
                    let _g = crate::sched::Bypass::new();
                    allr.lock().unwrap().extend(end);
                }) as Box<dyn FnOnce() + Send>
            })
            .collect(),
    );
    fs::fs().faults_on = false;
    let mut want = foreign.clone();
    for (key, b) in all.lock().unwrap().iter() {
        let p = file_of(key);
        check!(get_file(&p) == *b, class, "the file of {:?} is not what its owner left", key);
        if b.is_some() {
            want.push(p);
        }
    }
    want.sort();
    check!(foreign.iter().all(|f| get_file(f).as_deref() == Some(b"untouched")), class, "an unrelated file was changed or removed");
    let mut got: Vec<std::path::PathBuf> = vec![];
    for d in [dir(), dir().join("d"), dir().join("e")] {
        got.extend(list_dir(&d).into_iter().filter(|f| !f.starts_with("base-")).map(|f| d.join(f)).filter(|f| !f.is_dir()));
    }
    got.sort();
    check!(got == want, class, "the directories hold {:?}, expected {:?}", got, want);
}

fn client(c: &crate::run::Case, k: usize, ids: &[&str], ops: &[Op]) -> BTreeMap<String, Option<Vec<u8>>> {
    let class = "isolation";
    let mut slots: BTreeMap<String, Slot> = BTreeMap::new();
    let mut rng = rng_of(c, 170 + k as u64);
    for (n, o) in ops.iter().enumerate() {
        let id = ids[o.a % ids.len()];
        let what = format!("client {} step {} {} {:?}", k, n, o.k, id);
        let bytes_now = get_file(&file_of(id));
        check!(bytes_now.as_deref() == slots.get(id).map(|s| &s.bytes[..]), class, "{}: somebody else changed the file", what);
        match o.k.as_str() {
            "build" | "badbuild" if !slots.contains_key(id) => {
                let store = ["disk", "mmap", "lc", "disk"][o.b % 4];
                let mut c2 = c.clone();
                c2.store = store.into();
                c2.exp = 1 + (o.b as u32 / 4) % c.exp;
                c2.r = if c2.exp == c.exp { c.r } else { 0 };
                let w = World::seeded(&c2, o.b as u64 ^ (k as u64) << 40, "from_byte_slice");
                if o.k == "badbuild" {
                    // a build that fails halfway and is cleaned up
                    probe("failed-build-next-door");
                    let taken = Default::default();
                    let r = attempt(|| w.combo().build_iter(&w.items, IterPlan { announce: Some(w.m.leafs), yields: w.m.leafs, errs: vec![w.m.leafs - 1] }, Some(cf_of(id, c2.r)), &taken));
                    check!(r.is_err(), class, "{}: build from a failing source succeeded", what);
                    if get_file(&file_of(id)).is_some() {
                        must(class, &what, || w.combo().delete(cf_of(id, c2.r)));
                    }
                    continue;
                }
                let t = must(class, &what, || w.build(Some(cf_of(id, c2.r))));
                check!(t.root() == w.m.root(), class, "{}: wrong root", what);
                if o.b % 3 == 0 {
                    probe("rebuilt-after-delete");
                }
                let form = match store {
                    "disk" => "disk",
                    "mmap" => "mmap",
                    _ => "lc-v2",
                };
                let bytes = w.file(form_kind(form, c2.r));
                place_base(&w, form, &loc(id).0, loc(id).1);
                slots.insert(id.into(), Slot { w, form: form.into(), bytes });
            }
            "compact" => {
                if let Some(s) = slots.get_mut(id).filter(|s| s.form == "disk") {
                    probe("compact");
                    let mut t = must(class, &what, || open_form(&s.w, "disk", &loc(id).0, loc(id).1));
                    must(class, &what, || t.compact(cf_of(id, s.w.c.r), c.ver));
                    s.form = if c.ver == 1 { "lc-v1".into() } else { "lc-v2".into() };
                    s.bytes = s.w.file(form_kind(&s.form, s.w.c.r));
                    place_base(&s.w, &s.form, &loc(id).0, loc(id).1);
                }
            }
            "open" | "check" => {
                if let Some(s) = slots.get(id) {
                    probe("reopen");
                    let t = must(class, &what, || open_form(&s.w, &s.form, &loc(id).0, loc(id).1));
                    verify_form(class, &what, &*t, &s.w, &s.form, &mut rng, Depth { nodes: 3, proofs: 3 });
                }
            }
            "delete" | "tdelete" => {
                if let Some(s) = slots.remove(id) {
                    let cf = cf_of(id, s.w.c.r);
                    if o.k == "tdelete" {
                        probe("delete-by-tree");
                        let t = must(class, &what, || open_form(&s.w, &s.form, &loc(id).0, loc(id).1));
                        must(class, &what, || t.delete(cf));
                    } else {
                        probe("delete");
                        must(class, &what, || combo(c.elem, c.arity, form_store(&s.form)).delete(cf));
                    }
                    check!(get_file(&file_of(id)).is_none(), class, "{}: the file is still there after delete", what);
                }
            }
            "dmiss" if !slots.contains_key(id) => {
                probe("delete-missing");
                let st = ["disk", "mmap", "lc"][o.b % 3];
                let r = attempt(|| combo(c.elem, c.arity, st).delete(cf_of(id, 0)));
                check!(r.is_err(), class, "{}: deleting what does not exist succeeded ({})", what, st);
            }
            _ => {}
        }
        let bytes_now = get_file(&file_of(id));
        check!(bytes_now.as_deref() == slots.get(id).map(|s| &s.bytes[..]), class, "{}: wrong file content afterwards", what);
    }
    ids.iter().map(|id| (id.to_string(), slots.get(*id).map(|s| s.bytes.clone()))).collect()
}
