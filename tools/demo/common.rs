// A small hash for the demonstrations, and the definition of a Merkle tree to compare with.
#![allow(dead_code)]
use merkletree::hash::Algorithm;
use std::hash::Hasher;

pub type E = [u8; 32];

#[derive(Default, Clone)]
pub struct Alg(Vec<u8>);
impl Hasher for Alg {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
pub fn digest(b: &[u8]) -> E {
    let mut s = [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0x2545f4914f6cdd1d];
    for (i, c) in b.chunks(8).enumerate() {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        let x = u64::from_le_bytes(w) ^ (i as u64 + 1).wrapping_mul(0xff51afd7ed558ccd);
        for k in 0..4 {
            s[k] = (s[k] ^ x.rotate_left(13 * k as u32 + 1)).wrapping_mul(0xc4ceb9fe1a85ec53 + 2 * k as u64);
            s[k] ^= s[(k + 3) % 4] >> 29;
        }
    }
    for _ in 0..2 {
        for k in 0..4 {
            s[k] = (s[k] ^ s[(k + 1) % 4] >> 31).wrapping_mul(0x9fb21c651e98df25) ^ b.len() as u64;
        }
    }
    let mut o = [0u8; 32];
    for k in 0..4 {
        o[8 * k..8 * k + 8].copy_from_slice(&s[k].to_le_bytes());
    }
    o
}
impl Algorithm<E> for Alg {
    fn hash(&mut self) -> E {
        digest(&self.0)
    }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        node(nodes, height)
    }
}
pub fn node(nodes: &[E], height: usize) -> E {
    let mut v = vec![1u8, height as u8];
    for n in nodes {
        v.extend_from_slice(n);
    }
    digest(&v)
}
pub fn leaf(x: &E) -> E {
    let mut v = vec![0u8];
    v.extend_from_slice(x);
    digest(&v)
}
/// the i-th leaf value of family `k` (what is fed to the tree)
pub fn item(k: u64, i: usize) -> E {
    let mut o = digest(&[k.to_le_bytes(), (i as u64).to_le_bytes()].concat());
    o[31] &= 0x3f;
    o
}
pub fn items(k: u64, n: usize) -> Vec<E> {
    (0..n).map(|i| item(k, i)).collect()
}
/// all nodes of the tree over these base nodes, row by row
pub fn tree(base: &[E], arity: usize) -> Vec<E> {
    let mut all = base.to_vec();
    let mut row = base.to_vec();
    let mut h = 0;
    while row.len() > 1 {
        row = row.chunks(arity).map(|c| node(c, h)).collect();
        all.extend_from_slice(&row);
        h += 1;
    }
    all
}
pub fn hashed(v: &[E]) -> Vec<E> {
    v.iter().map(leaf).collect()
}
pub fn bytes(v: &[E]) -> Vec<u8> {
    v.concat()
}
pub fn dir() -> std::path::PathBuf {
    std::env::args().nth(1).expect("scratch directory").into()
}
pub fn fail(msg: &str) -> ! {
    println!("property broken: {}", msg);
    std::process::exit(1)
}
