//! C16: compound trees equal the Merkle tree over their parts' roots.
use super::util::*;
use crate::fs;
use crate::model;
use crate::rng::Rng;
use crate::run::{self, Case, Op, RunSpec};
use crate::tree::*;
use merkletree::store::{ReplicaConfig, StoreConfig};

pub const PROBES: &[&str] = &[
    "two-layers", "vec", "disk", "mmap", "lc", "lc-reader", "trees", "slices", "slices_cfg", "stores", "opened", "configs", "as_trees", "sub_configs", "replica", "sub_replica", "tampered-proof-refused", "too-few-parts-refused", "too-many-parts-refused", "wrong-offset-count-refused",
    "mixed-sizes-refused", "error-surfaced", "right-despite-fault", "assembled-after-fault", "gaps-in-replica", "far-replica", "compacted-by-library", "height-sensitive",
];

pub struct CWorld {
    pub c: Case,
    pub parts: Vec<World>,
}
impl CWorld {
    pub fn new(c: &Case) -> CWorld {
        let k = c.sub * c.top.max(1);
        let mut c2 = c.clone();
        if c2.store == "lc-reader" {
            c2.store = "lc".into();
        }
        CWorld { c: c.clone(), parts: (0..k).map(|i| World::seeded(&c2, c.dseed.wrapping_add(1000 * i as u64 + 1), &c.ctor)).collect() }
    }
    fn hs(&self) -> bool {
        height_sensitive(self.c.elem)
    }
    pub fn per(&self) -> usize {
        self.parts[0].m.leafs
    }
    pub fn leafs(&self) -> usize {
        self.per() * self.parts.len()
    }
    /// root over the parts lo..lo+sub
    fn sub_root(&self, g: usize) -> Vec<u8> {
        let v: Vec<u8> = self.parts[g * self.c.sub..(g + 1) * self.c.sub].iter().flat_map(|p| p.m.root().to_vec()).collect();
        model::node(self.hs(), self.c.elem, 1, &v)
    }
    pub fn root(&self) -> Vec<u8> {
        if self.c.top == 0 {
            return self.sub_root(0);
        }
        let v: Vec<u8> = (0..self.c.top).flat_map(|g| self.sub_root(g)).collect();
        model::node(self.hs(), self.c.elem, 1, &v)
    }
    pub fn len(&self) -> usize {
        let s = self.parts[0].m.len() * self.c.sub + 1;
        if self.c.top == 0 {
            s
        } else {
            s * self.c.top + 1
        }
    }
    pub fn row_count(&self) -> usize {
        self.parts[0].m.row_count() + if self.c.top == 0 { 1 } else { 2 }
    }
    pub fn leaf(&self, i: usize) -> &[u8] {
        self.parts[i / self.per()].m.at(i % self.per())
    }
    /// How a proof of leaf i differs from the prescribed one.
    pub fn proof_diff(&self, p: &dyn ProofObj, i: usize) -> Option<String> {
        let part = i / self.per();
        let (g, k) = (part / self.c.sub, part % self.c.sub);
        if p.item() != self.leaf(i) {
            return Some(format!("the item of the compound proof of leaf {} is not the leaf", i));
        }
        match attempt(|| p.validate()) {
            Ok(true) => {}
            x => return Some(format!("honest compound proof of leaf {} does not validate: {:?}", i, x)),
        }
        let layer = |p: &dyn ProofObj, roots: Vec<Vec<u8>>, mine: usize, root: Vec<u8>, what: &str| -> Option<String> {
            let mut lemma: Vec<Vec<u8>> = roots.into_iter().enumerate().filter(|x| x.0 != mine).map(|x| x.1).collect();
            lemma.push(root);
            if p.lemma() != lemma {
                return Some(format!("compound proof of leaf {}: wrong lemma in the {} layer", i, what));
            }
            if p.path() != vec![mine] {
                return Some(format!("compound proof of leaf {}: path {:?} in the {} layer, expected [{}]", i, p.path(), what, mine));
            }
            None
        };
        let sub_of = |p: &dyn ProofObj| p.sub().ok_or_else(|| format!("compound proof of leaf {} lacks a sub proof", i));
        let mid = if self.c.top > 0 {
            if let Some(m) = layer(p, (0..self.c.top).map(|g| self.sub_root(g)).collect(), g, self.root(), "top") {
                return Some(m);
            }
            match sub_of(p) {
                Ok(s) => Some(s),
                Err(m) => return Some(m),
            }
        } else {
            None
        };
        let mid: &dyn ProofObj = mid.as_deref().unwrap_or(p);
        let roots = self.parts[g * self.c.sub..(g + 1) * self.c.sub].iter().map(|p| p.m.root().to_vec()).collect();
        if let Some(m) = layer(mid, roots, k, self.sub_root(g), "middle") {
            return Some(m);
        }
        match sub_of(mid) {
            Ok(s) => {
                if s.sub().is_some() {
                    return Some("a base proof has a sub proof".into());
                }
                proof_diff(&*s, &self.parts[part].m, i % self.per())
            }
            Err(m) => Some(m),
        }
    }
    pub fn part_id(&self, tag: &str, k: usize) -> String {
        format!("{}-{}", tag, k)
    }
    pub fn cfgs(&self, tag: &str) -> Vec<StoreConfig> {
        (0..self.parts.len()).map(|k| cfg(&self.part_id(tag, k), self.c.r)).collect()
    }
    /// Everything that must exist before the route can be taken. Returns where the shared base data is.
    pub fn prepare(&self, tag: &str, rng: &mut Rng) -> Option<ReplicaConfig> {
        let route = self.c.wl.as_str();
        let reader = self.c.store == "lc-reader";
        let files = reader || matches!(route, "configs" | "sub_configs" | "opened");
        let by_library = rng.chance(1, 3);
        if files {
            for (k, w) in self.parts.iter().enumerate() {
                let id = self.part_id(tag, k);
                let kd = if reader {
                    Kind::V2(self.c.r)
                } else if self.c.store == "lc" {
                    Kind::V1(self.c.r)
                } else {
                    Kind::Full
                };
                if by_library {
                    let mut c2 = w.c.clone();
                    if c2.store == "lc" {
                        c2.store = "disk".into();
                    }
                    let w2 = World::seeded(&c2, w.c.dseed, &w.c.ctor);
                    let mut t = must("compound", "build a part", || w2.build(Some(cfg(&id, self.c.r))));
                    if w.c.store == "lc" {
                        probe("compacted-by-library");
                        must("compound", "compact a part", || t.compact(cfg(&id, self.c.r), if reader { 2 } else { 1 }));
                    }
                } else {
                    put_file(&path_of(&id), &w.file(kd));
                }
            }
        }
        if !reader {
            return None;
        }
        // one shared file, the parts in any order, with gaps
        let mut order: Vec<usize> = (0..self.parts.len()).collect();
        if rng.chance(1, 2) {
            for i in (1..order.len()).rev() {
                order.swap(i, rng.below(i + 1));
            }
        }
        let gaps = rng.chance(2, 3);
        let mut b = vec![];
        let mut offs = vec![0; self.parts.len()];
        for k in order {
            if gaps {
                probe("gaps-in-replica");
                b.resize(b.len() + rng.below(50), 0xE7);
            }
            offs[k] = b.len();
            b.extend_from_slice(self.parts[k].base());
        }
        let p = dir().join(format!("base-{}", tag));
        let hole = self.c.kn(2) as usize;
        if hole > 0 {
            probe("far-replica");
            offs.iter_mut().for_each(|o| *o += hole);
        }
        put_file_at(&p, &b, hole as u64);
        Some(ReplicaConfig::new(p, offs))
    }
    pub fn assemble(&self, tag: &str, rc: Option<&ReplicaConfig>, order: &[usize]) -> anyhow::Result<Tree> {
        let cf = self.cfgs(tag);
        let v: Vec<Part> = order
            .iter()
            .map(|k| {
                let w = &self.parts[*k];
                Part { inp: w.input(), ctor: w.c.ctor.clone(), cfg: if self.c.cfg { Some(cf[*k].clone()) } else { None } }
            })
            .collect();
        compound(self.c.elem, self.c.arity, (self.c.sub, self.c.top), &self.c.store).assemble(&self.c.wl, self.per(), &v, rc)
    }
    /// Ok(None): right answer
    pub fn read_eval(&self, t: &dyn DynTree, o: &Op) -> (String, std::result::Result<Option<String>, Fail>) {
        let i = o.a % self.leafs();
        let (lc, r) = (self.c.store.starts_with("lc"), self.c.r);
        let def = default_r(&self.c);
        run::checked(1);
        let res = match o.k.as_str() {
            "proof" if !lc || r == 0 => attempt(|| t.proof(i)).map(|p| self.proof_diff(&*p, i)),
            "cproof" if lc || self.c.store == "disk" => {
                let x = if lc { r + o.b % (def - r + 1) } else { o.b % (def + 1) };
                let x = if o.b % 5 == 0 { None } else { Some(x) };
                attempt(|| t.cached_proof(i, x)).map(|p| self.proof_diff(&*p, i))
            }
            _ => attempt(|| t.read_at(i)).map(|g| if g == self.leaf(i) { None } else { Some(format!("leaf {} reads wrong", i)) }),
        };
        (format!("{} {} {}+{} r{} {} {} {}", self.c.wl, self.c.store, self.c.sub, self.c.top, r, o.k, i, o.b), res)
    }
    pub fn shape(&self, class: &str, t: &dyn DynTree) {
        check!(t.root() == self.root(), class, "{} {}: the compound root is not the hash of the parts' roots", self.c.wl, self.c.store);
        check!(t.leafs() == self.leafs(), class, "compound tree has {} leafs, expected {}", t.leafs(), self.leafs());
        check!(t.len() == self.len(), class, "compound tree has length {}, expected {}", t.len(), self.len());
        check!(t.row_count() == self.row_count(), class, "compound tree has {} rows, expected {}", t.row_count(), self.row_count());
    }
}
pub const CREADS: &[&str] = &["at", "proof", "proof", "cproof", "cproof"];

/// pick shape, store and route
pub fn gen_case(r: &mut Rng) -> Case {
    let mut c = base_case(r, "trees", &["vec", "disk", "disk", "mmap", "lc", "lc-reader", "lc-reader"], 256);
    let (e, a) = *r.pick(COMPOUND_COMBOS);
    c.elem = e;
    c.arity = a;
    let max = if r.chance(1, 6) { 1024 } else { 64 };
    c.exp = pick_exp(r, a, max);
    let (s, t) = *r.pick(SHAPES);
    c.sub = s;
    c.top = t;
    c.cfg = c.store != "vec" && r.chance(2, 3);
    let mut routes: Vec<&str> = match c.store.as_str() {
        "lc-reader" => vec!["trees", "replica", "replica"],
        "lc" => vec!["opened", "configs"],
        "vec" => vec!["trees", "slices", "stores"],
        _ => vec!["trees", "slices", "slices_cfg", "stores", "opened", "configs"],
    };
    if t > 0 {
        match c.store.as_str() {
            "lc-reader" => routes.extend(["as_trees", "sub_replica", "sub_replica"]),
            "lc" => routes.extend(["sub_configs"]),
            "vec" => routes.extend(["as_trees"]),
            _ => routes.extend(["as_trees", "sub_configs"]),
        }
    }
    c.wl = r.pick(&routes).to_string();
    if c.store.starts_with("lc") || matches!(c.wl.as_str(), "slices_cfg" | "opened" | "configs" | "sub_configs") {
        c.cfg = true;
    }
    if c.wl == "slices" {
        c.cfg = false;
    }
    c.ctor = r.pick(&["new", "from_data", "try_from_iter", "from_par_iter", "from_byte_slice"]).to_string();
    c.r = if c.store.starts_with("lc") { r.below(default_r(&c) + 1) } else { 0 };
    c
}
pub fn gen(r: &mut Rng, seed: u64, _t: bool) -> RunSpec {
    let mut c = gen_case(r);
    c.clients = r.range(1, 4);
    c.knob = vec![r.below(3) as i64, r.below(2) as i64, if r.chance(1, 8) { *r.pick(&[1 << 31, (1 << 32) - 40, (3 << 32) + 8]) } else { 0 }];
    for k in 0..c.clients {
        for _ in 0..r.range(2, 8) {
            c.ops.push(op(*r.pick(CREADS), r.next() as u32 as usize, r.next() as u32 as usize, k as u64));
        }
    }
    let sp = sched_plan(r);
    let io = match r.below(4) {
        0 => no_faults(r),
        1 => benign(r),
        _ => hard(r, ALL_IO),
    };
    spec("", seed, c, sp, io)
}

/// assemble under faults, then use the tree from several threads under faults
pub fn drive(c: &Case, class: &str, cw: &CWorld, rng: &mut Rng) -> Tree {
    let all: Vec<usize> = (0..cw.parts.len()).collect();
    let rc = cw.prepare("a", rng);
    // assembly itself under faults
    let t = {
        let (x, h) = faulty(1, || cw.assemble("a", rc.as_ref(), &all));
        match x {
            Ok(t) => {
                if h > 0 {
                    probe("right-despite-fault");
                }
                t
            }
            Err(e) => {
                check!(h > 0, class, "assembling by {} on {} failed although nothing was wrong: {:?}", c.wl, c.store, e);
                probe("error-surfaced");
                heal();
                let rc2 = cw.prepare("b", rng);
                let t = must(class, "assemble once the fault has gone", || cw.assemble("b", rc2.as_ref(), &all));
                probe("assembled-after-fault");
                t
            }
        }
    };
    heal();
    cw.shape(class, &*t);
    // concurrent use, faults on
    fs::fs().begin_op(2);
    fs::fs().faults_on = true;
    {
        let t = &*t;
        let v = (0..c.clients)
            .map(|k| {
                let ops: Vec<Op> = c.ops.iter().filter(|o| o.c == k as u64).cloned().collect();
                Box::new(move || {
                    for o in ops {
                        match cw.read_eval(t, &o) {
                            (_, Ok(None)) => {}
                            (what, Ok(Some(m))) => violation(class, &format!("{}: {}", what, m)),
                            (what, Err(Fail::Err(e))) => check!(fs::fs().hard_fired_in_op > 0, class, "{}: failed although nothing was wrong: {}", what, e),
                            (what, Err(Fail::Panic(e))) => violation(class, &format!("{}: panicked: {}", what, e)),
                        }
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        clients(class, v);
    }
    heal();
    t
}
pub fn run(s: &RunSpec) {
    let class = "compound";
    let c = &s.case;
    let cw = CWorld::new(c);
    let mut rng = rng_of(c, 16);
    probe(&c.wl);
    probe(&c.store);
    if c.top > 0 {
        probe("two-layers");
    }
    if height_sensitive(c.elem) {
        probe("height-sensitive");
    }
    let all: Vec<usize> = (0..cw.parts.len()).collect();
    let t = drive(c, class, &cw, &mut rng);
    // every leaf, and proofs of leaves of every part
    let n = cw.leafs();
    let step = (n / 96).max(1);
    for i in (0..n).step_by(step) {
        let g = must(class, &format!("read leaf {}", i), || t.read_at(i));
        check!(g == cw.leaf(i), class, "{} {}: leaf {} of the compound tree is not leaf {} of part {}", c.wl, c.store, i, i % cw.per(), i / cw.per());
    }
    for k in 0..cw.parts.len() {
        let i = k * cw.per() + rng.below(cw.per());
        for kd in ["proof", "cproof"] {
            let o = op(kd, i, rng.below(1000), 0);
            match cw.read_eval(&*t, &o) {
                (_, Ok(None)) => {}
                (what, x) => violation(class, &format!("{}: {:?}", what, x)),
            }
        }
    }
    // a proof with one changed element is no proof
    let i = rng.below(n);
    let p = if c.store.starts_with("lc") && c.r > 0 { attempt(|| t.cached_proof(i, Some(c.r))) } else { attempt(|| t.proof(i)) };
    let p = must(class, "proof to tamper with", || p.map_err(|e| anyhow::anyhow!("{:?}", e)));
    let depth = if c.top > 0 { 3 } else { 2 };
    for d in 0..depth {
        let mut q: Option<Box<dyn ProofObj>> = None;
        for _ in 0..d {
            let z = q.as_deref().unwrap_or(&*p);
            q = z.sub();
        }
        let k = q.as_deref().unwrap_or(&*p).lemma().len();
        for e in sample(&mut rng, k, 4) {
            let bad = p.tamper(d, e, rng.next() as usize);
            let v = attempt(|| bad.validate());
            check!(!matches!(v, Ok(true)), class, "a compound proof with element {} of layer {} changed still validates", e, d);
        }
    }
    probe("tampered-proof-refused");
    if c.ctor == "from_data" {
        let w = &cw.parts[i / cw.per()];
        let (a, b) = ((i % cw.per()) * c.elem, (i % cw.per() + 1) * c.elem);
        let ok = must(class, "validate_with_data", || p.validate_with_data(&w.items[a..b]));
        check!(ok, class, "compound proof of leaf {} rejected with its own data", i);
        let j = (i % cw.per() + 1) % cw.per();
        let ok = attempt(|| p.validate_with_data(&w.items[j * c.elem..(j + 1) * c.elem]));
        let same = w.items[j * c.elem..(j + 1) * c.elem] == w.items[a..b];
        check!(same || !matches!(ok, Ok(true)), class, "compound proof of leaf {} accepted with other data", i);
    }
    // past the end
    check!(attempt(|| t.read_at(n)).is_err(), class, "reading past the last leaf of a compound tree succeeded");
    check!(attempt(|| t.proof(n)).is_err(), class, "proof past the last leaf of a compound tree succeeded");
    check!(attempt(|| t.cached_proof(n, None)).is_err(), class, "cached proof past the last leaf of a compound tree succeeded");
    drop(t);
    // other shapes are refused
    match c.kn(0) {
        0 => {
            // too few or too many parts, by one or by a whole group
            let group = c.top > 0 && rng.chance(1, 2);
            let by = if group { c.sub } else { 1 };
            let mut cw2 = CWorld::new(c);
            let mut some = all.clone();
            let more = rng.chance(1, 2);
            if more {
                for x in 0..by {
                    let w = World::seeded(&cw2.parts[0].c, c.dseed.wrapping_add(777_000 + x as u64), &c.ctor);
                    cw2.parts.push(w);
                    some.push(all.len() + x);
                }
            } else if group {
                let g = rng.below(c.top);
                some.drain(g * c.sub..(g + 1) * c.sub);
            } else {
                some.remove(rng.below(all.len()));
            }
            let tag = if more { "long" } else { "short" };
            let rc = cw2.prepare(tag, &mut rng);
            let rc = rc.map(|r| ReplicaConfig::new(r.path.clone(), some.iter().map(|k| r.offsets[*k]).collect()));
            check!(
                attempt(|| cw2.assemble(tag, rc.as_ref(), &some)).is_err(),
                class,
                "a compound tree of {}x{} parts was assembled by {} on {} from {} parts",
                c.sub,
                c.top,
                c.wl,
                c.store,
                some.len()
            );
            probe(if more { "too-many-parts-refused" } else { "too-few-parts-refused" });
        }
        1 if c.store == "lc-reader" && c.wl.ends_with("replica") => {
            // base data placed for another number of parts
            let rc = cw.prepare("offs", &mut rng).unwrap();
            let mut offs = rc.offsets.clone();
            let more = rng.chance(1, 2);
            if more {
                offs.push(0);
            } else {
                offs.pop();
            }
            let whole = c.top == 0 || c.wl == "sub_replica";
            if whole {
                let rc = ReplicaConfig::new(rc.path.clone(), offs);
                check!(
                    attempt(|| cw.assemble("offs", Some(&rc), &all)).is_err(),
                    class,
                    "a compound tree of {} parts was assembled by {} with {} places of base data",
                    all.len(),
                    c.wl,
                    rc.offsets.len()
                );
                probe("wrong-offset-count-refused");
            }
        }
        _ if all.len() == 1 => {}
        1 if !c.store.starts_with("lc") && matches!(c.wl.as_str(), "trees" | "as_trees" | "stores" | "slices" | "slices_cfg" | "opened") => {
            // one part or one group of parts of another size
            let mut cw2 = CWorld::new(c);
            let k = rng.below(all.len());
            let which: Vec<usize> = if c.top > 1 && rng.chance(1, 2) { (k / c.sub * c.sub..(k / c.sub + 1) * c.sub).collect() } else { vec![k] };
            for k in which {
                let mut c2 = cw2.parts[k].c.clone();
                c2.exp = if c2.exp > 1 { c2.exp - 1 } else { c2.exp + 1 };
                cw2.parts[k] = World::seeded(&c2, 77 + k as u64, &c.ctor);
            }
            let rc = cw2.prepare("mixed", &mut rng);
            check!(attempt(|| cw2.assemble("mixed", rc.as_ref(), &all)).is_err(), class, "a compound tree was assembled by {} on {} from parts of different sizes", c.wl, c.store);
            probe("mixed-sizes-refused");
        }
        _ => {
            // the order of the parts matters
            let rc = cw.prepare("turn", &mut rng);
            let mut turned = all.clone();
            turned.rotate_left(1 + rng.below(all.len() - 1));
            let rc = rc.map(|r| ReplicaConfig::new(r.path.clone(), turned.iter().map(|k| r.offsets[*k]).collect()));
            let t = must(class, "assemble in another order", || cw.assemble("turn", rc.as_ref(), &turned));
            let cw2 = CWorld { c: c.clone(), parts: turned.iter().map(|k| World::seeded(&cw.parts[*k].c, cw.parts[*k].c.dseed, &c.ctor)).collect() };
            cw2.shape(class, &*t);
            for _ in 0..3 {
                let o = op(*rng.pick(CREADS), rng.next() as u32 as usize, rng.next() as u32 as usize, 0);
                match cw2.read_eval(&*t, &o) {
                    (_, Ok(None)) => {}
                    (what, x) => violation(class, &format!("{} (other order): {:?}", what, x)),
                }
            }
        }
    }
}
