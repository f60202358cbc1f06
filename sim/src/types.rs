//! Element, hash and source types plugged into the library through its own traits.
use crate::fs::{self, Class, Kind};
use crate::sched;
use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use std::hash::Hasher;

/// A place inside user-supplied code (hash function) where a preemption, a crash or a panic may happen.
#[inline]
pub fn hash_hint() {
    if !sched::active() {
        return;
    }
    sched::point();
    let f = fs::fs();
    if f.crash_on {
        f.crash_point_often();
    }
    if f.faults_on && unsafe { HASH_FAULTS } {
        if let Some(Kind::Panic) = f.decide(Class::Hash) {
            panic!("injected hash panic");
        }
    }
}
pub static mut HASH_FAULTS: bool = false;

macro_rules! elem {
    ($name:ident, $n:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        pub struct $name(pub [u8; $n]);
        impl Default for $name {
            fn default() -> Self {
                $name([0; $n])
            }
        }
        impl AsRef<[u8]> for $name {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl Element for $name {
            fn byte_len() -> usize {
                $n
            }
            fn from_slice(b: &[u8]) -> Self {
                let mut x = [0; $n];
                x.copy_from_slice(b);
                $name(x)
            }
            fn copy_to_slice(&self, b: &mut [u8]) {
                b.copy_from_slice(&self.0);
            }
        }
    };
}
elem!(E5, 5);
elem!(E8, 8);
elem!(E20, 20);
elem!(E64, 64);
pub type E32 = [u8; 32];

/// Streaming hash, independent of how the input is cut into writes.
#[derive(Clone, Copy)]
pub struct Core {
    a: u64,
    b: u64,
    n: u64,
}
impl Default for Core {
    fn default() -> Self {
        Core { a: 0xcbf29ce484222325, b: 0x9E3779B97F4A7C15, n: 0 }
    }
}
impl Core {
    #[inline]
    pub fn write(&mut self, d: &[u8]) {
        for c in d {
            self.a = (self.a ^ *c as u64).wrapping_mul(0x100000001b3);
            self.b = (self.b.rotate_left(9) ^ *c as u64).wrapping_mul(0xD6E8FEB86659FD93);
            self.n += 1;
        }
    }
    pub fn out(&self, o: &mut [u8]) {
        let mut x = self.a ^ self.b.rotate_left(31) ^ self.n.wrapping_mul(0x2545F4914F6CDD1D);
        for c in o.chunks_mut(8) {
            let v = crate::rng::splitmix(&mut x).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
            x ^= self.b;
        }
    }
}

/// Plain hash: relies on the library's default leaf/node construction.
#[derive(Clone, Copy, Default)]
pub struct Alg(Core);
impl Hasher for Alg {
    fn write(&mut self, d: &[u8]) {
        self.0.write(d)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
/// Hash whose interior nodes depend on the level, as the trait's signature allows.
#[derive(Clone, Copy, Default)]
pub struct AlgH(Core);
impl Hasher for AlgH {
    fn write(&mut self, d: &[u8]) {
        self.0.write(d)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl<E: Element> Algorithm<E> for Alg {
    fn hash(&mut self) -> E {
        hash_hint();
        let mut b = [0u8; 64];
        let n = E::byte_len();
        self.0.out(&mut b[..n]);
        E::from_slice(&b[..n])
    }
}
impl<E: Element> Algorithm<E> for AlgH {
    fn hash(&mut self) -> E {
        hash_hint();
        let mut b = [0u8; 64];
        let n = E::byte_len();
        self.0.out(&mut b[..n]);
        E::from_slice(&b[..n])
    }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        self.0.write(&[1]);
        self.0.write(&(height as u64).to_le_bytes());
        for n in nodes {
            self.0.write(n.as_ref());
        }
        Algorithm::<E>::hash(self)
    }
    fn node(&mut self, l: E, r: E, height: usize) -> E {
        self.multi_node(&[l, r], height)
    }
}

/// Reference hash used by the model, written against the definition and not the trait.
pub fn ref_hash(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut c = Core::default();
    for p in parts {
        c.write(p);
    }
    let mut o = vec![0; n];
    c.out(&mut o);
    o
}
