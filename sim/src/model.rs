//! Reference model: a Merkle tree as defined, nothing clever.
use crate::types::ref_hash;

#[derive(Clone)]
pub struct Model {
    pub n: usize,
    pub arity: usize,
    pub hs: bool,
    pub leafs: usize,
    /// all rows, base first, concatenated
    pub nodes: Vec<u8>,
    /// start index of each row
    pub rows: Vec<usize>,
}
pub fn node(hs: bool, n: usize, level: usize, children: &[u8]) -> Vec<u8> {
    if hs {
        ref_hash(&[&[1], &(level as u64).to_le_bytes(), children], n)
    } else {
        ref_hash(&[&[1], children], n)
    }
}
impl Model {
    /// From the base row itself (already leaf-hashed).
    pub fn from_base(base: Vec<u8>, n: usize, arity: usize, hs: bool) -> Model {
        let leafs = base.len() / n;
        let mut nodes = base;
        let mut rows = vec![0];
        let mut start = 0;
        let mut width = leafs;
        let mut level = 0;
        while width > 1 {
            let mut next = Vec::with_capacity(width / arity * n);
            for g in 0..width / arity {
                let a = (start + g * arity) * n;
                next.extend(node(hs, n, level, &nodes[a..a + arity * n]));
            }
            start += width;
            width /= arity;
            level += 1;
            rows.push(start);
            nodes.extend(next);
        }
        Model { n, arity, hs, leafs, nodes, rows }
    }
    pub fn len(&self) -> usize {
        self.nodes.len() / self.n
    }
    pub fn row_count(&self) -> usize {
        self.rows.len()
    }
    pub fn at(&self, i: usize) -> &[u8] {
        &self.nodes[i * self.n..(i + 1) * self.n]
    }
    pub fn range(&self, a: usize, b: usize) -> &[u8] {
        &self.nodes[a * self.n..b * self.n]
    }
    pub fn root(&self) -> &[u8] {
        self.at(self.len() - 1)
    }
    pub fn proof(&self, i: usize) -> (Vec<Vec<u8>>, Vec<usize>) {
        let mut lemma = vec![self.at(i).to_vec()];
        let mut path = vec![];
        let mut j = i;
        for row in 0..self.rows.len() - 1 {
            let g = j / self.arity * self.arity;
            for k in g..g + self.arity {
                if k != j {
                    lemma.push(self.at(self.rows[row] + k).to_vec());
                }
            }
            path.push(j % self.arity);
            j /= self.arity;
        }
        lemma.push(self.root().to_vec());
        (lemma, path)
    }
    /// index of the first retained node when `r` rows above the base are discarded
    pub fn cache_start(&self, r: usize) -> usize {
        self.rows[r + 1]
    }
    pub fn cache_bytes(&self, r: usize) -> &[u8] {
        &self.nodes[self.cache_start(r) * self.n..]
    }
    /// how many rows above the base may be discarded (0 allowed): the root and one row must stay
    pub fn max_discard(&self) -> usize {
        self.row_count() - 2
    }
}

/// Leaf items of a tree, deterministic in the seed. Distinct with overwhelming probability.
pub fn items(seed: u64, count: usize, n: usize) -> Vec<u8> {
    let mut out = vec![0u8; count * n];
    let mut x = seed ^ 0x17e35;
    for c in out.chunks_mut(n) {
        let mut y = crate::rng::splitmix(&mut x);
        for d in c.chunks_mut(8) {
            let v = crate::rng::splitmix(&mut y).to_le_bytes();
            d.copy_from_slice(&v[..d.len()]);
        }
    }
    out
}

/// Values to write into a store: mostly random, sometimes zero, all ones or partly zero.
pub fn values(seed: u64, count: usize, n: usize) -> Vec<u8> {
    let mut v = items(seed, count, n);
    let mut x = seed ^ 0x7A11;
    match crate::rng::splitmix(&mut x) % 16 {
        0 | 1 => v.fill(0),
        2 => v.fill(0xFF),
        3 => v.chunks_mut(n).step_by(2).for_each(|c| c.fill(0)),
        4 => v.chunks_mut(n).skip(count / 2).for_each(|c| c.fill(0)),
        _ => return v,
    }
    crate::run::probe("written-regular");
    v
}

/// How the leaves of a run look: chosen once per run from its data seed.
static mut STYLE: u64 = 0;
pub fn set_style(dseed: u64) {
    let mut x = dseed ^ 0x57_1e;
    unsafe { STYLE = crate::rng::splitmix(&mut x) }
}
pub const STYLES: &[&str] = &["leaves-zero", "leaves-ones", "leaves-equal", "leaves-two-values", "leaves-zero-tail", "leaves-pairs", "leaves-mirrored", "leaves-period", "leaves-lone", "leaves-counter", "leaves-counter-be"];
/// Leaf contents: mostly random, in some runs zero, repeated or regular, in some runs the same for every tree but one leaf.
pub fn leaves(seed: u64, count: usize, n: usize) -> Vec<u8> {
    let style = unsafe { STYLE };
    match style % 20 {
        0..=10 => items(seed, count, n),
        11..=14 if count > 0 => {
            crate::run::probe("leaves-of-twins");
            let mut v = items(style, count, n);
            let k = (seed >> 3) as usize % count;
            let one = items(seed, 1, n);
            v[k * n..(k + 1) * n].copy_from_slice(&one);
            v
        }
        _ => {
            let mut x = seed ^ style;
            let kind = crate::rng::splitmix(&mut x) as usize % STYLES.len();
            crate::run::probe(STYLES[kind]);
            let r = items(seed, count.max(4), n);
            let at = |i: usize| &r[i * n..(i + 1) * n];
            let mut v = vec![0u8; count * n];
            for (i, c) in v.chunks_mut(n).enumerate() {
                match STYLES[kind] {
                    "leaves-zero" => {}
                    "leaves-ones" => c.fill(0xFF),
                    "leaves-equal" => c.copy_from_slice(at(0)),
                    "leaves-two-values" => c.copy_from_slice(at(crate::rng::splitmix(&mut x) as usize % 2)),
                    "leaves-zero-tail" if i < count / 2 => c.copy_from_slice(at(i)),
                    "leaves-pairs" => c.copy_from_slice(at(i / 2)),
                    "leaves-mirrored" => c.copy_from_slice(at(i.min(count - 1 - i))),
                    "leaves-period" => c.copy_from_slice(at(i % 4)),
                    "leaves-lone" if i + 1 == count => c.copy_from_slice(at(i)),
                    "leaves-counter" => c[0..4].copy_from_slice(&(i as u32).to_le_bytes()),
                    "leaves-counter-be" => c[n - 4..].copy_from_slice(&(i as u32).to_be_bytes()),
                    _ => {}
                }
            }
            v
        }
    }
}
