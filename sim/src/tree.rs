//! Type-erased access to the library: every (element, hash, arity, backend) combination used here is
//! a separate instantiation of the real generic code.
use crate::model::Model;
use crate::types::*;
use anyhow::{anyhow, Result};
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::{Element, FromIndexedParallelIterator, MerkleTree};
use merkletree::proof::Proof;
use merkletree::store::*;
use rayon::prelude::*;
use std::fs::File;
use std::path::Path;
use typenum::*;

pub trait ProofObj: Send + Sync {
    fn validate(&self) -> Result<bool>;
    fn validate_with_data(&self, item: &[u8]) -> Result<bool>;
    fn lemma(&self) -> Vec<Vec<u8>>;
    fn path(&self) -> Vec<usize>;
    fn item(&self) -> Vec<u8>;
    fn root(&self) -> Vec<u8>;
    fn sub(&self) -> Option<Box<dyn ProofObj>>;
    /// copy with one byte of lemma entry `i` flipped; depth 0 = this layer, 1 = sub proof, ...
    fn tamper(&self, depth: usize, i: usize, bit: usize) -> Box<dyn ProofObj>;
    fn layers(&self) -> (usize, usize);
    fn any(&self) -> &dyn std::any::Any;
    /// copy whose lemma at `depth` is another one
    fn with_lemma(&self, depth: usize, lemma: &[Vec<u8>]) -> Box<dyn ProofObj>;
    /// copy whose path at `depth` is another one, remade with the constructor
    fn with_path(&self, depth: usize, path: Vec<usize>) -> Result<Box<dyn ProofObj>>;
    /// copy whose sub proof at `depth` is that of the donor (same types), or none
    fn with_sub(&self, depth: usize, donor: Option<&dyn ProofObj>) -> Box<dyn ProofObj>;
}
struct P<E: Element, A: Algorithm<E>, U: Unsigned>(Proof<E, U>, std::marker::PhantomData<fn() -> A>);

/// Raw data item whose Hashable feeds its bytes.
pub struct Raw(pub Vec<u8>);
impl<H: std::hash::Hasher> Hashable<H> for Raw {
    fn hash(&self, s: &mut H) {
        s.write(&self.0)
    }
}

impl<E: Element, A: Algorithm<E>, U: Unsigned + Send + Sync + Clone + 'static> ProofObj for P<E, A, U>
where
    E: 'static,
    A: 'static,
{
    fn validate(&self) -> Result<bool> {
        self.0.validate::<A>()
    }
    fn validate_with_data(&self, item: &[u8]) -> Result<bool> {
        self.0.validate_with_data::<A>(&Raw(item.to_vec()))
    }
    fn lemma(&self) -> Vec<Vec<u8>> {
        self.0.lemma().iter().map(|e| e.as_ref().to_vec()).collect()
    }
    fn path(&self) -> Vec<usize> {
        self.0.path().clone()
    }
    fn item(&self) -> Vec<u8> {
        self.0.item().as_ref().to_vec()
    }
    fn root(&self) -> Vec<u8> {
        self.0.root().as_ref().to_vec()
    }
    fn sub(&self) -> Option<Box<dyn ProofObj>> {
        self.0.sub_tree_proof.as_ref().map(|p| Box::new(P::<E, A, U>((**p).clone(), std::marker::PhantomData)) as Box<dyn ProofObj>)
    }
    fn tamper(&self, depth: usize, i: usize, bit: usize) -> Box<dyn ProofObj> {
        let mut q = self.0.clone();
        {
            let mut p = &mut q;
            for _ in 0..depth {
                p = p.sub_tree_proof.as_mut().unwrap();
            }
            let mut b = p.lemma()[i].as_ref().to_vec();
            let bit = bit % (b.len() * 8);
            b[bit / 8] ^= 1 << (bit % 8);
            p.lemma_mut()[i] = E::from_slice(&b);
        }
        Box::new(P::<E, A, U>(q, std::marker::PhantomData))
    }
    fn layers(&self) -> (usize, usize) {
        (self.0.sub_layer_nodes(), self.0.top_layer_nodes())
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn with_lemma(&self, depth: usize, lemma: &[Vec<u8>]) -> Box<dyn ProofObj> {
        let mut q = self.0.clone();
        *at_depth(&mut q, depth).lemma_mut() = lemma.iter().map(|b| E::from_slice(b)).collect();
        Box::new(P::<E, A, U>(q, std::marker::PhantomData))
    }
    fn with_path(&self, depth: usize, path: Vec<usize>) -> Result<Box<dyn ProofObj>> {
        let mut q = self.0.clone();
        let p = at_depth(&mut q, depth);
        *p = remade(p.clone(), path)?;
        Ok(Box::new(P::<E, A, U>(q, std::marker::PhantomData)))
    }
    fn with_sub(&self, depth: usize, donor: Option<&dyn ProofObj>) -> Box<dyn ProofObj> {
        let mut q = self.0.clone();
        at_depth(&mut q, depth).sub_tree_proof = donor.map(|d| Box::new(d.any().downcast_ref::<Self>().expect("same proof type").0.clone()));
        Box::new(P::<E, A, U>(q, std::marker::PhantomData))
    }
}
fn at_depth<E: Element, U: Unsigned>(mut p: &mut Proof<E, U>, depth: usize) -> &mut Proof<E, U> {
    for _ in 0..depth {
        p = p.sub_tree_proof.as_mut().expect("a proof has that many layers");
    }
    p
}
/// the same proof made again with another path
fn remade<E: Element, U: Unsigned>(p: Proof<E, U>, path: Vec<usize>) -> Result<Proof<E, U>> {
    let (sub, lemma) = (p.sub_tree_proof.clone(), p.lemma().clone());
    match (p.top_layer_nodes(), p.sub_layer_nodes()) {
        (0, 0) => Proof::new::<U0, U0>(sub, lemma, path),
        (0, 2) => Proof::new::<U0, U2>(sub, lemma, path),
        (0, 3) => Proof::new::<U0, U3>(sub, lemma, path),
        (0, 4) => Proof::new::<U0, U4>(sub, lemma, path),
        (0, 8) => Proof::new::<U0, U8>(sub, lemma, path),
        (2, 4) => Proof::new::<U2, U4>(sub, lemma, path),
        (3, 2) => Proof::new::<U3, U2>(sub, lemma, path),
        x => panic!("no such compound shape: {:?}", x),
    }
}

pub trait DynTree: Send + Sync {
    fn root(&self) -> Vec<u8>;
    fn len(&self) -> usize;
    fn leafs(&self) -> usize;
    fn row_count(&self) -> usize;
    fn read_at(&self, i: usize) -> Result<Vec<u8>>;
    fn read_range(&self, a: usize, b: usize) -> Result<Vec<u8>>;
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()>;
    fn read_range_into(&self, a: usize, b: usize, buf: &mut [u8]) -> Result<()>;
    fn proof(&self, i: usize) -> Result<Box<dyn ProofObj>>;
    fn cached_proof(&self, i: usize, r: Option<usize>) -> Result<Box<dyn ProofObj>>;
    fn compact(&mut self, cfg: StoreConfig, v: u32) -> Result<bool>;
    fn reinit(&mut self) -> Result<()>;
    fn delete(&self, cfg: StoreConfig) -> Result<()>;
    fn sync(&self) -> Result<()>;
    fn store_len(&self) -> Option<usize>;
    fn set_reader(&mut self, p: &Path) -> Result<()>;
}
pub type Tree = Box<dyn DynTree>;

pub struct T<E: Element, A: Algorithm<E>, S: Store<E>, U: Unsigned, V: Unsigned, W: Unsigned>(pub MerkleTree<E, A, S, U, V, W>);

/// Backends that accept an external reader path after opening.
pub trait SetReader {
    fn set(&mut self, _p: &Path) -> Result<()> {
        Err(anyhow!("not a cached tree"))
    }
}
impl<E: Element, A: Algorithm<E>, U: Unsigned, V: Unsigned, W: Unsigned> SetReader for T<E, A, LevelCacheStore<E, File>, U, V, W> {
    fn set(&mut self, p: &Path) -> Result<()> {
        self.0.set_external_reader_path(p)
    }
}
impl<E: Element, A: Algorithm<E>, U: Unsigned, V: Unsigned, W: Unsigned> SetReader for T<E, A, VecStore<E>, U, V, W> {}
impl<E: Element, A: Algorithm<E>, U: Unsigned, V: Unsigned, W: Unsigned> SetReader for T<E, A, DiskStore<E>, U, V, W> {}
impl<E: Element, A: Algorithm<E>, U: Unsigned, V: Unsigned, W: Unsigned> SetReader for T<E, A, MmapStore<E>, U, V, W> {}
impl<E: Element, A: Algorithm<E>, U: Unsigned, V: Unsigned, W: Unsigned> SetReader for T<E, A, LevelCacheStore<E, crate::source::Src>, U, V, W> {}

// SAFETY: trees hold only Send + Sync parts plus PhantomData of typenum / hash markers.
unsafe impl<E: Element, A: Algorithm<E>, S: Store<E>, U: Unsigned, V: Unsigned, W: Unsigned> Send for T<E, A, S, U, V, W> {}
unsafe impl<E: Element, A: Algorithm<E>, S: Store<E>, U: Unsigned, V: Unsigned, W: Unsigned> Sync for T<E, A, S, U, V, W> {}

fn cat<E: Element>(v: Vec<E>) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * E::byte_len());
    for e in v {
        o.extend_from_slice(e.as_ref());
    }
    o
}

impl<E, A, S, U, V, W> DynTree for T<E, A, S, U, V, W>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    S: Store<E>,
    U: Unsigned + Send + Sync + Clone + 'static,
    V: Unsigned,
    W: Unsigned,
    T<E, A, S, U, V, W>: SetReader,
{
    fn root(&self) -> Vec<u8> {
        self.0.root().as_ref().to_vec()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn leafs(&self) -> usize {
        self.0.leafs()
    }
    fn row_count(&self) -> usize {
        self.0.row_count()
    }
    fn read_at(&self, i: usize) -> Result<Vec<u8>> {
        Ok(self.0.read_at(i)?.as_ref().to_vec())
    }
    fn read_range(&self, a: usize, b: usize) -> Result<Vec<u8>> {
        Ok(cat(self.0.read_range(a, b)?))
    }
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()> {
        self.0.read_into(i, buf)
    }
    fn read_range_into(&self, a: usize, b: usize, buf: &mut [u8]) -> Result<()> {
        self.0.read_range_into(a, b, buf)
    }
    fn proof(&self, i: usize) -> Result<Box<dyn ProofObj>> {
        Ok(Box::new(P::<E, A, U>(self.0.gen_proof(i)?, std::marker::PhantomData)))
    }
    fn cached_proof(&self, i: usize, r: Option<usize>) -> Result<Box<dyn ProofObj>> {
        Ok(Box::new(P::<E, A, U>(self.0.gen_cached_proof(i, r)?, std::marker::PhantomData)))
    }
    fn compact(&mut self, cfg: StoreConfig, v: u32) -> Result<bool> {
        self.0.compact(cfg, v)
    }
    fn reinit(&mut self) -> Result<()> {
        self.0.reinit()
    }
    fn delete(&self, cfg: StoreConfig) -> Result<()> {
        self.0.delete(cfg)
    }
    fn sync(&self) -> Result<()> {
        match self.0.data() {
            Some(s) => s.sync(),
            None => Err(anyhow!("no store")),
        }
    }
    fn store_len(&self) -> Option<usize> {
        self.0.data().map(|s| s.len())
    }
    fn set_reader(&mut self, p: &Path) -> Result<()> {
        self.set(p)
    }
}

/// A failing or lying leaf source.
#[derive(Clone, Debug)]
pub struct IterPlan {
    /// announced number of leaves (upper size hint), None = unknown
    pub announce: Option<usize>,
    /// actual number yielded
    pub yields: usize,
    /// positions that yield an error
    pub errs: Vec<usize>,
}
struct LeafIter<'a, E> {
    data: &'a [u8],
    pos: usize,
    plan: IterPlan,
    taken: &'a std::sync::atomic::AtomicUsize,
    _e: std::marker::PhantomData<E>,
}
impl<'a, E: Element> Iterator for LeafIter<'a, E> {
    type Item = Result<E>;
    fn next(&mut self) -> Option<Result<E>> {
        if self.pos >= self.plan.yields {
            return None;
        }
        let i = self.pos;
        self.pos += 1;
        self.taken.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if self.plan.errs.contains(&i) {
            return Some(Err(anyhow!("injected leaf error #{}", i)));
        }
        let n = E::byte_len();
        let cnt = self.data.len() / n;
        let j = i % cnt.max(1);
        Some(Ok(E::from_slice(&self.data[j * n..(j + 1) * n])))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.plan.announce)
    }
}

/// What to build from.
pub struct Input<'a> {
    /// raw items, n bytes each
    pub items: &'a [u8],
    /// for ctor "from_tree_slice"/"from_data_store"
    pub model: Option<&'a Model>,
}
pub const CTORS: &[&str] = &["new", "from_data", "try_from_iter", "from_par_iter", "from_byte_slice", "from_tree_slice", "from_data_store"];

/// The base row each constructor must produce for the given items.
pub fn expected_base(ctor: &str, items: &[u8], n: usize) -> Vec<u8> {
    match ctor {
        "from_byte_slice" | "from_tree_slice" | "from_data_store" => items.to_vec(),
        "from_data" => items.chunks(n).flat_map(|c| ref_hash(&[&[0], &ref_hash(&[c], n)], n)).collect(),
        _ => items.chunks(n).flat_map(|c| ref_hash(&[&[0], c], n)).collect(),
    }
}

fn els<E: Element>(d: &[u8]) -> Vec<E> {
    d.chunks(E::byte_len()).map(E::from_slice).collect()
}

type Base<E, A, S, U> = MerkleTree<E, A, S, U, U0, U0>;

pub fn build_base<E, A, S, U>(ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<Base<E, A, S, U>>
where
    E: Element + 'static,
    A: Algorithm<E>,
    S: Store<E>,
    U: Unsigned,
{
    let n = E::byte_len();
    match (ctor, cfg) {
        ("new", None) => MerkleTree::new(els::<E>(inp.items)),
        ("new", Some(c)) => MerkleTree::new_with_config(els::<E>(inp.items), c),
        ("from_data", None) => MerkleTree::from_data(inp.items.chunks(n).map(|c| Raw(c.to_vec())).collect::<Vec<_>>()),
        ("from_data", Some(c)) => MerkleTree::from_data_with_config(inp.items.chunks(n).map(|c| Raw(c.to_vec())).collect::<Vec<_>>(), c),
        ("try_from_iter", None) => MerkleTree::try_from_iter(els::<E>(inp.items).into_iter().map(Ok)),
        ("try_from_iter", Some(c)) => MerkleTree::try_from_iter_with_config(els::<E>(inp.items).into_iter().map(Ok), c),
        ("from_par_iter", None) => MerkleTree::from_par_iter(els::<E>(inp.items).into_par_iter()),
        ("from_par_iter", Some(c)) => MerkleTree::from_par_iter_with_config(els::<E>(inp.items).into_par_iter(), c),
        ("from_byte_slice", None) => MerkleTree::from_byte_slice(inp.items),
        ("from_byte_slice", Some(c)) => MerkleTree::from_byte_slice_with_config(inp.items, c),
        ("from_tree_slice", None) => MerkleTree::from_tree_slice(&inp.model.unwrap().nodes, inp.items.len() / n),
        ("from_tree_slice", Some(c)) => MerkleTree::from_tree_slice_with_config(&inp.model.unwrap().nodes, inp.items.len() / n, c),
        ("from_data_store", c) => {
            let m = inp.model.unwrap();
            let s = match c {
                None => S::new_from_slice(m.len(), &m.nodes)?,
                Some(c) => S::new_from_slice_with_config(m.len(), U::to_usize(), &m.nodes, c)?,
            };
            MerkleTree::from_data_store(s, inp.items.len() / n)
        }
        (x, _) => Err(anyhow!("harness: unknown ctor {}", x)),
    }
}

/// Build with an arity no tree can have; the leaf count, if it is built all the same.
pub fn build_odd_arity(arity: usize, store: &str, ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<usize> {
    fn go<S: Store<E8>>(arity: usize, ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<usize> {
        Ok(match arity {
            0 => build_base::<E8, Alg, S, U0>(ctor, inp, cfg)?.leafs(),
            1 => build_base::<E8, Alg, S, U1>(ctor, inp, cfg)?.leafs(),
            3 => build_base::<E8, Alg, S, U3>(ctor, inp, cfg)?.leafs(),
            _ => build_base::<E8, Alg, S, U6>(ctor, inp, cfg)?.leafs(),
        })
    }
    match store {
        "vec" => go::<VecStore<E8>>(arity, ctor, inp, cfg),
        "disk" => go::<DiskStore<E8>>(arity, ctor, inp, cfg),
        "mmap" => go::<MmapStore<E8>>(arity, ctor, inp, cfg),
        _ => go::<LevelCacheStore<E8, File>>(arity, ctor, inp, cfg),
    }
}

/// Operations that need the concrete types: one implementation per combination.
pub trait Combo: Send + Sync {
    fn build(&self, ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<Tree>;
    fn build_iter(&self, items: &[u8], plan: IterPlan, cfg: Option<StoreConfig>, taken: &std::sync::atomic::AtomicUsize) -> Result<Tree>;
    /// open the file and wrap it as a tree
    fn open(&self, leafs: usize, len: usize, cfg: &StoreConfig) -> Result<Tree>;
    /// new_with_config on an existing file, wrapped as a tree
    fn open_or_create(&self, leafs: usize, len: usize, cfg: &StoreConfig) -> Result<Tree>;
    fn delete(&self, cfg: StoreConfig) -> Result<()>;
    fn new_store(&self, size: usize, cfg: Option<StoreConfig>) -> Result<Box<dyn DynStore>>;
    fn new_store_slice(&self, size: usize, data: &[u8], cfg: Option<StoreConfig>) -> Result<Box<dyn DynStore>>;
    fn open_store(&self, size: usize, cfg: &StoreConfig) -> Result<Box<dyn DynStore>>;
}

pub trait DynStore: Send + Sync {
    fn write_at(&mut self, el: &[u8], i: usize) -> Result<()>;
    fn copy_from_slice(&mut self, b: &[u8], i: usize) -> Result<()>;
    fn push(&mut self, el: &[u8]) -> Result<()>;
    fn read_at(&self, i: usize) -> Result<Vec<u8>>;
    fn read_range(&self, a: usize, b: usize) -> Result<Vec<u8>>;
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()>;
    fn read_range_into(&self, a: usize, b: usize, buf: &mut [u8]) -> Result<()>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn last(&self) -> Result<Vec<u8>>;
    fn sync(&self) -> Result<()>;
    fn reinit(&mut self) -> Result<()>;
    fn compact(&mut self, branches: usize, cfg: StoreConfig, v: u32) -> Result<bool>;
    fn loaded(&self) -> bool;
}
pub struct St<E: Element, S: Store<E>>(pub S, std::marker::PhantomData<fn() -> E>);
impl<E: Element, S: Store<E>> DynStore for St<E, S> {
    fn write_at(&mut self, el: &[u8], i: usize) -> Result<()> {
        self.0.write_at(E::from_slice(el), i)
    }
    fn copy_from_slice(&mut self, b: &[u8], i: usize) -> Result<()> {
        self.0.copy_from_slice(b, i)
    }
    fn push(&mut self, el: &[u8]) -> Result<()> {
        self.0.push(E::from_slice(el))
    }
    fn read_at(&self, i: usize) -> Result<Vec<u8>> {
        Ok(self.0.read_at(i)?.as_ref().to_vec())
    }
    fn read_range(&self, a: usize, b: usize) -> Result<Vec<u8>> {
        Ok(cat(self.0.read_range(a..b)?))
    }
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()> {
        self.0.read_into(i, buf)
    }
    fn read_range_into(&self, a: usize, b: usize, buf: &mut [u8]) -> Result<()> {
        self.0.read_range_into(a, b, buf)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn last(&self) -> Result<Vec<u8>> {
        Ok(self.0.last()?.as_ref().to_vec())
    }
    fn sync(&self) -> Result<()> {
        self.0.sync()
    }
    fn reinit(&mut self) -> Result<()> {
        self.0.reinit()
    }
    fn compact(&mut self, branches: usize, cfg: StoreConfig, v: u32) -> Result<bool> {
        self.0.compact(branches, cfg, v)
    }
    fn loaded(&self) -> bool {
        self.0.loaded_from_disk()
    }
}

struct C<E, A, S, U>(std::marker::PhantomData<fn() -> (E, A, S, U)>);
impl<E, A, S, U> Combo for C<E, A, S, U>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    S: Store<E> + 'static,
    U: Unsigned + Send + Sync + Clone + 'static,
    T<E, A, S, U, U0, U0>: SetReader,
{
    fn build(&self, ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<Tree> {
        Ok(Box::new(T(build_base::<E, A, S, U>(ctor, inp, cfg)?)))
    }
    fn build_iter(&self, items: &[u8], plan: IterPlan, cfg: Option<StoreConfig>, taken: &std::sync::atomic::AtomicUsize) -> Result<Tree> {
        let it = LeafIter::<E> { data: items, pos: 0, plan, taken, _e: std::marker::PhantomData };
        let t: Base<E, A, S, U> = match cfg {
            None => MerkleTree::try_from_iter(it)?,
            Some(c) => MerkleTree::try_from_iter_with_config(it, c)?,
        };
        Ok(Box::new(T(t)))
    }
    fn open(&self, leafs: usize, len: usize, cfg: &StoreConfig) -> Result<Tree> {
        let s = S::new_from_disk(len, U::to_usize(), cfg)?;
        let t: Base<E, A, S, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn open_or_create(&self, leafs: usize, len: usize, cfg: &StoreConfig) -> Result<Tree> {
        let s = S::new_with_config(len, U::to_usize(), cfg.clone())?;
        let t: Base<E, A, S, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn delete(&self, cfg: StoreConfig) -> Result<()> {
        S::delete(cfg)
    }
    fn new_store(&self, size: usize, cfg: Option<StoreConfig>) -> Result<Box<dyn DynStore>> {
        Ok(match cfg {
            None => Box::new(St(S::new(size)?, std::marker::PhantomData)),
            Some(c) => Box::new(St(S::new_with_config(size, U::to_usize(), c)?, std::marker::PhantomData)),
        })
    }
    fn new_store_slice(&self, size: usize, data: &[u8], cfg: Option<StoreConfig>) -> Result<Box<dyn DynStore>> {
        Ok(match cfg {
            None => Box::new(St(S::new_from_slice(size, data)?, std::marker::PhantomData)),
            Some(c) => Box::new(St(S::new_from_slice_with_config(size, U::to_usize(), data, c)?, std::marker::PhantomData)),
        })
    }
    fn open_store(&self, size: usize, cfg: &StoreConfig) -> Result<Box<dyn DynStore>> {
        Ok(Box::new(St(S::new_from_disk(size, U::to_usize(), cfg)?, std::marker::PhantomData)))
    }
}

/// Extra operations of the file-based partially cached tree.
pub trait LcCombo: Send + Sync {
    fn open_with_reader(&self, leafs: usize, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<Tree>;
    fn open_with_source(&self, leafs: usize, len: usize, cfg: &StoreConfig, offset: usize) -> Result<Tree>;
    /// new_from_disk, then set_external_reader
    fn open_then_set(&self, leafs: usize, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<Tree>;
    fn is_consistent(&self, len: usize, cfg: &StoreConfig) -> Result<bool>;
    fn is_consistent_v1(&self, len: usize, cfg: &StoreConfig) -> Result<bool>;
    fn disk_is_consistent(&self, len: usize, cfg: &StoreConfig) -> Result<bool>;
    fn disk_open_path(&self, leafs: usize, len: usize, path: &Path) -> Result<Tree>;
    /// Open the store alone; the answer is its length.
    fn open_store_only(&self, form: &str, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<usize>;
}
struct L<E, A, U>(std::marker::PhantomData<fn() -> (E, A, U)>);
impl<E, A, U> LcCombo for L<E, A, U>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    U: Unsigned + Send + Sync + Clone + 'static,
{
    fn open_with_reader(&self, leafs: usize, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<Tree> {
        let rd = if offset == 0 {
            ExternalReader::new_from_path(replica)?
        } else {
            ExternalReader::new_from_config(&ReplicaConfig::new(replica, vec![0, offset]), 1)?
        };
        let s = LevelCacheStore::<E, File>::new_from_disk_with_reader(len, U::to_usize(), cfg, rd)?;
        let t: Base<E, A, LevelCacheStore<E, File>, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn open_with_source(&self, leafs: usize, len: usize, cfg: &StoreConfig, offset: usize) -> Result<Tree> {
        let rd = ExternalReader { offset, source: crate::source::Src, read_fn: crate::source::read };
        let s = LevelCacheStore::<E, crate::source::Src>::new_from_disk_with_reader(len, U::to_usize(), cfg, rd)?;
        let t: Base<E, A, LevelCacheStore<E, crate::source::Src>, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn open_then_set(&self, leafs: usize, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<Tree> {
        let rd = ExternalReader::new_from_config(&ReplicaConfig::new(replica, vec![offset]), 0)?;
        let mut s = LevelCacheStore::<E, File>::new_from_disk(len, U::to_usize(), cfg)?;
        s.set_external_reader(rd)?;
        let t: Base<E, A, LevelCacheStore<E, File>, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn is_consistent(&self, len: usize, cfg: &StoreConfig) -> Result<bool> {
        LevelCacheStore::<E, File>::is_consistent(len, U::to_usize(), cfg)
    }
    fn is_consistent_v1(&self, len: usize, cfg: &StoreConfig) -> Result<bool> {
        LevelCacheStore::<E, File>::is_consistent_v1(len, U::to_usize(), cfg)
    }
    fn disk_is_consistent(&self, len: usize, cfg: &StoreConfig) -> Result<bool> {
        DiskStore::<E>::is_consistent(len, U::to_usize(), cfg)
    }
    fn disk_open_path(&self, leafs: usize, len: usize, path: &Path) -> Result<Tree> {
        let s = DiskStore::<E>::new_from_disk_with_path(len, path)?;
        let t: Base<E, A, DiskStore<E>, U> = MerkleTree::from_data_store(s, leafs)?;
        Ok(Box::new(T(t)))
    }
    fn open_store_only(&self, form: &str, len: usize, cfg: &StoreConfig, replica: &Path, offset: usize) -> Result<usize> {
        let b = U::to_usize();
        Ok(match form {
            "disk" => Store::<E>::len(&DiskStore::<E>::new_from_disk(len, b, cfg)?),
            "disk-config" => Store::<E>::len(&DiskStore::<E>::new_with_config(len, b, cfg.clone())?),
            "disk-path" => Store::<E>::len(&DiskStore::<E>::new_from_disk_with_path(len, StoreConfig::data_path(&cfg.path, &cfg.id))?),
            "mmap" => Store::<E>::len(&MmapStore::<E>::new_from_disk(len, b, cfg)?),
            "mmap-config" => Store::<E>::len(&MmapStore::<E>::new_with_config(len, b, cfg.clone())?),
            "lc-v1-config" => Store::<E>::len(&LevelCacheStore::<E, File>::new_with_config(len, b, cfg.clone())?),
            "lc-v1" | "lc-v2-set" => Store::<E>::len(&LevelCacheStore::<E, File>::new_from_disk(len, b, cfg)?),
            "lc-v2" => {
                let rd = if offset == 0 { ExternalReader::new_from_path(replica)? } else { ExternalReader::new_from_config(&ReplicaConfig::new(replica, vec![0, offset]), 1)? };
                Store::<E>::len(&LevelCacheStore::<E, File>::new_from_disk_with_reader(len, b, cfg, rd)?)
            }
            "lc-v2-source" => {
                let rd = ExternalReader { offset, source: crate::source::Src, read_fn: crate::source::read };
                Store::<E>::len(&LevelCacheStore::<E, crate::source::Src>::new_from_disk_with_reader(len, b, cfg, rd)?)
            }
            x => panic!("harness: no form {}", x),
        })
    }
}

macro_rules! with_combo {
    ($elem:expr, $arity:expr, $mac:ident, $($arg:tt)*) => {
        match ($elem, $arity) {
            (5, 4) => $mac!(E5, Alg, U4, $($arg)*),
            (8, 2) => $mac!(E8, Alg, U2, $($arg)*),
            (8, 4) => $mac!(E8, Alg, U4, $($arg)*),
            (8, 8) => $mac!(E8, Alg, U8, $($arg)*),
            (8, 16) => $mac!(E8, Alg, U16, $($arg)*),
            (8, 64) => $mac!(E8, Alg, U64, $($arg)*),
            (20, 2) => $mac!(E20, AlgH, U2, $($arg)*),
            (20, 4) => $mac!(E20, AlgH, U4, $($arg)*),
            (32, 2) => $mac!(E32, Alg, U2, $($arg)*),
            (32, 8) => $mac!(E32, Alg, U8, $($arg)*),
            (64, 2) => $mac!(E64, Alg, U2, $($arg)*),
            x => panic!("harness: no combination {:?}", x),
        }
    };
}
pub const COMBOS: &[(usize, usize)] = &[(5, 4), (8, 2), (8, 4), (8, 8), (8, 16), (8, 64), (20, 2), (20, 4), (32, 2), (32, 8), (64, 2)];
pub fn height_sensitive(elem: usize) -> bool {
    elem == 20
}
macro_rules! mk {
    ($e:ty, $a:ty, $u:ty, $s:expr) => {
        match $s {
            "vec" => Box::new(C::<$e, $a, VecStore<$e>, $u>(std::marker::PhantomData)),
            "disk" => Box::new(C::<$e, $a, DiskStore<$e>, $u>(std::marker::PhantomData)),
            "mmap" => Box::new(C::<$e, $a, MmapStore<$e>, $u>(std::marker::PhantomData)),
            "lc" => Box::new(C::<$e, $a, LevelCacheStore<$e, File>, $u>(std::marker::PhantomData)),
            x => panic!("harness: no store {}", x),
        }
    };
}
macro_rules! mkl {
    ($e:ty, $a:ty, $u:ty,) => {
        Box::new(L::<$e, $a, $u>(std::marker::PhantomData))
    };
}
pub fn combo(elem: usize, arity: usize, store: &str) -> Box<dyn Combo> {
    with_combo!(elem, arity, mk, store)
}
pub fn lc(elem: usize, arity: usize) -> Box<dyn LcCombo> {
    with_combo!(elem, arity, mkl,)
}

// ---- compound trees ----------------------------------------------------------------------------

/// One part of a compound tree.
pub struct Part<'a> {
    pub inp: Input<'a>,
    pub ctor: String,
    pub cfg: Option<StoreConfig>,
}
pub trait CompoundCombo: Send + Sync {
    /// Assemble a compound tree by the named route. Routes that read files find them through the parts' configurations.
    fn assemble(&self, route: &str, leafs: usize, parts: &[Part], replica: Option<&ReplicaConfig>) -> Result<Tree>;
}
pub const SHAPES: &[(usize, usize)] = &[(2, 0), (3, 0), (8, 0), (1, 0), (2, 3), (4, 2), (3, 1)];
pub const COMPOUND_COMBOS: &[(usize, usize)] = &[(20, 2), (8, 4)];

/// Build the base trees, one task per part.
fn base_parts<E, A, S, U>(parts: &[Part]) -> Result<Vec<Base<E, A, S, U>>>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    S: Store<E> + 'static,
    U: Unsigned + Send + Sync + 'static,
{
    let v: Vec<Result<T<E, A, S, U, U0, U0>>> = parts.par_iter().map(|p| Ok(T(build_base::<E, A, S, U>(&p.ctor, &p.inp, p.cfg.clone())?))).collect();
    v.into_iter().map(|t| Ok(t?.0)).collect()
}
struct CS<E, A, S, U, V, W>(std::marker::PhantomData<fn() -> (E, A, S, U, V, W)>);
impl<E, A, S, U, V, W> CompoundCombo for CS<E, A, S, U, V, W>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    S: Store<E> + 'static,
    U: Unsigned + Send + Sync + Clone + 'static,
    V: Unsigned + Send + Sync + 'static,
    W: Unsigned + Send + Sync + 'static,
    T<E, A, S, U, V, U0>: SetReader,
    T<E, A, S, U, V, W>: SetReader,
{
    fn assemble(&self, route: &str, leafs: usize, parts: &[Part], _replica: Option<&ReplicaConfig>) -> Result<Tree> {
        let cfgs: Vec<StoreConfig> = parts.iter().filter_map(|p| p.cfg.clone()).collect();
        let slices: Vec<&[u8]> = parts.iter().filter_map(|p| p.inp.model.map(|m| &m.nodes[..])).collect();
        type Sub<E, A, S, U, V> = MerkleTree<E, A, S, U, V, U0>;
        let stores = |parts: &[Part]| -> Result<Vec<S>> {
            parts
                .iter()
                .map(|p| {
                    let m = p.inp.model.unwrap();
                    match &p.cfg {
                        None => S::new_from_slice(m.len(), &m.nodes),
                        Some(c) => S::new_from_slice_with_config(m.len(), U::to_usize(), &m.nodes, c.clone()),
                    }
                })
                .collect()
        };
        let opened = |parts: &[Part]| -> Result<Vec<S>> { parts.iter().map(|p| S::new_from_disk(p.inp.model.unwrap().len(), U::to_usize(), p.cfg.as_ref().unwrap())).collect() };
        if W::to_usize() == 0 {
            let t: Sub<E, A, S, U, V> = match route {
                "trees" => MerkleTree::from_trees(base_parts::<E, A, S, U>(parts)?)?,
                "slices" => MerkleTree::<E, A, S, U, V, U0>::from_slices(&slices, leafs)?,
                "slices_cfg" => MerkleTree::from_slices_with_configs(&slices, leafs, &cfgs)?,
                "stores" => MerkleTree::from_stores(leafs, stores(parts)?)?,
                "opened" => MerkleTree::from_stores(leafs, opened(parts)?)?,
                "configs" => MerkleTree::from_store_configs(leafs, &cfgs)?,
                x => return Err(anyhow!("harness: unknown route {}", x)),
            };
            return Ok(Box::new(T(t)));
        }
        let per = V::to_usize();
        let t: MerkleTree<E, A, S, U, V, W> = match route {
            "as_trees" => MerkleTree::from_sub_trees_as_trees(base_parts::<E, A, S, U>(parts)?)?,
            "sub_configs" => MerkleTree::from_sub_tree_store_configs(leafs, &cfgs)?,
            _ => {
                let mut subs: Vec<Sub<E, A, S, U, V>> = vec![];
                for (k, g) in parts.chunks(per).enumerate() {
                    let sl = &slices[(k * per).min(slices.len())..((k + 1) * per).min(slices.len())];
                    subs.push(match route {
                        "trees" => MerkleTree::from_trees(base_parts::<E, A, S, U>(g)?)?,
                        "slices" => MerkleTree::<E, A, S, U, V, U0>::from_slices(sl, leafs)?,
                        "slices_cfg" => MerkleTree::from_slices_with_configs(sl, leafs, &cfgs[k * per..k * per + g.len()])?,
                        "stores" => MerkleTree::from_stores(leafs, stores(g)?)?,
                        "opened" => MerkleTree::from_stores(leafs, opened(g)?)?,
                        "configs" => MerkleTree::from_store_configs(leafs, &cfgs[k * per..k * per + g.len()])?,
                        x => return Err(anyhow!("harness: unknown route {}", x)),
                    });
                }
                MerkleTree::from_sub_trees(subs)?
            }
        };
        Ok(Box::new(T(t)))
    }
}
/// Routes that only partially cached trees with an external reader have.
struct CR<E, A, U, V, W>(std::marker::PhantomData<fn() -> (E, A, U, V, W)>);
impl<E, A, U, V, W> CompoundCombo for CR<E, A, U, V, W>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    U: Unsigned + Send + Sync + Clone + 'static,
    V: Unsigned + Send + Sync + 'static,
    W: Unsigned + Send + Sync + 'static,
{
    fn assemble(&self, route: &str, leafs: usize, parts: &[Part], replica: Option<&ReplicaConfig>) -> Result<Tree> {
        type Lc<E> = LevelCacheStore<E, File>;
        let cfgs: Vec<StoreConfig> = parts.iter().filter_map(|p| p.cfg.clone()).collect();
        let rc = replica.unwrap();
        let bases = |cfgs: &[StoreConfig], off: usize| -> Result<Vec<Base<E, A, Lc<E>, U>>> {
            cfgs.iter()
                .enumerate()
                .map(|(i, c)| {
                    let len = merkletree::merkle::get_merkle_tree_len(leafs, U::to_usize())?;
                    let s = Lc::<E>::new_from_disk_with_reader(len, U::to_usize(), c, ExternalReader::new_from_config(rc, off + i)?)?;
                    MerkleTree::from_data_store(s, leafs)
                })
                .collect()
        };
        if W::to_usize() == 0 {
            let t: MerkleTree<E, A, Lc<E>, U, V, U0> = match route {
                "replica" => MerkleTree::from_store_configs_and_replica(leafs, &cfgs, rc)?,
                _ => MerkleTree::from_trees(bases(&cfgs, 0)?)?,
            };
            return Ok(Box::new(T(t)));
        }
        let per = V::to_usize();
        let t: MerkleTree<E, A, Lc<E>, U, V, W> = match route {
            "sub_replica" => MerkleTree::from_sub_tree_store_configs_and_replica(leafs, &cfgs, rc)?,
            "as_trees" => MerkleTree::from_sub_trees_as_trees(bases(&cfgs, 0)?)?,
            _ => {
                let mut subs: Vec<MerkleTree<E, A, Lc<E>, U, V, U0>> = vec![];
                for (k, g) in cfgs.chunks(per).enumerate() {
                    subs.push(match route {
                        "replica" => MerkleTree::from_store_configs_and_replica(leafs, g, &ReplicaConfig::new(rc.path.clone(), rc.offsets[k * per..k * per + g.len()].to_vec()))?,
                        _ => MerkleTree::from_trees(bases(g, k * per)?)?,
                    });
                }
                MerkleTree::from_sub_trees(subs)?
            }
        };
        Ok(Box::new(T(t)))
    }
}
macro_rules! mkc {
    ($e:ty, $a:ty, $u:ty, $v:ty, $w:ty, $s:expr) => {
        match $s {
            "vec" => Box::new(CS::<$e, $a, VecStore<$e>, $u, $v, $w>(std::marker::PhantomData)) as Box<dyn CompoundCombo>,
            "disk" => Box::new(CS::<$e, $a, DiskStore<$e>, $u, $v, $w>(std::marker::PhantomData)),
            "mmap" => Box::new(CS::<$e, $a, MmapStore<$e>, $u, $v, $w>(std::marker::PhantomData)),
            "lc" => Box::new(CS::<$e, $a, LevelCacheStore<$e, File>, $u, $v, $w>(std::marker::PhantomData)),
            "lc-reader" => Box::new(CR::<$e, $a, $u, $v, $w>(std::marker::PhantomData)),
            x => panic!("harness: no store {}", x),
        }
    };
}
macro_rules! mkshape {
    ($e:ty, $a:ty, $u:ty, $shape:expr, $s:expr) => {
        match $shape {
            (2, 0) => mkc!($e, $a, $u, U2, U0, $s),
            (3, 0) => mkc!($e, $a, $u, U3, U0, $s),
            (8, 0) => mkc!($e, $a, $u, U8, U0, $s),
            (1, 0) => mkc!($e, $a, $u, U1, U0, $s),
            (2, 3) => mkc!($e, $a, $u, U2, U3, $s),
            (3, 1) => mkc!($e, $a, $u, U3, U1, $s),
            (4, 2) => mkc!($e, $a, $u, U4, U2, $s),
            x => panic!("harness: no shape {:?}", x),
        }
    };
}
pub fn compound(elem: usize, arity: usize, shape: (usize, usize), store: &str) -> Box<dyn CompoundCombo> {
    match (elem, arity) {
        (20, 2) => mkshape!(E20, AlgH, U2, shape, store),
        (8, 4) => mkshape!(E8, Alg, U4, shape, store),
        x => panic!("harness: no compound combination {:?}", x),
    }
}

// ---- parallel iteration over a store -----------------------------------------------------------

pub const PAR_WAYS: &[&str] = &["collect", "collect-val", "rev", "rev-val", "enumerate", "max-len", "min-len", "chunks", "zip", "skip", "take", "step", "fold", "filter", "flat", "for-each", "count", "split", "two-ends", "position"];
pub trait ParCombo: Send + Sync {
    /// (position, element) pairs seen, in the order the iteration prescribes
    fn iterate(&self, way: &str, k: usize, data: &[u8], size: usize, cfg: Option<StoreConfig>) -> Result<Vec<(usize, Vec<u8>)>>;
    /// a tree whose leaves come from a parallel iterator over a store
    fn tree_from(&self, way: &str, data: &[u8], cfg: Option<StoreConfig>, tree_cfg: Option<StoreConfig>, faults: &dyn Fn(bool)) -> Result<Tree>;
}
struct Par<E, A, S, D, U>(std::marker::PhantomData<fn() -> (E, A, S, D, U)>);
impl<E, A, S, D, U> ParCombo for Par<E, A, S, D, U>
where
    E: Element + 'static,
    A: Algorithm<E> + 'static,
    S: Store<E> + IndexedParallelIterator<Item = E> + 'static,
    for<'a> &'a S: IndexedParallelIterator<Item = E>,
    D: Store<E> + 'static,
    U: Unsigned + Send + Sync + Clone + 'static,
    T<E, A, D, U, U0, U0>: SetReader,
{
    fn iterate(&self, way: &str, k: usize, data: &[u8], size: usize, cfg: Option<StoreConfig>) -> Result<Vec<(usize, Vec<u8>)>> {
        let s = match cfg {
            None => S::new_from_slice(size, data)?,
            Some(c) => S::new_from_slice_with_config(size, 2, data, c)?,
        };
        let n = Store::len(&s);
        let num = |v: Vec<E>| v.into_iter().enumerate().map(|(i, e)| (i, e.as_ref().to_vec())).collect::<Vec<_>>();
        let back = |v: Vec<E>| {
            let n = v.len();
            v.into_iter().enumerate().map(|(i, e)| (n - 1 - i, e.as_ref().to_vec())).collect::<Vec<_>>()
        };
        if IndexedParallelIterator::len(&&s) != n || ParallelIterator::opt_len(&&s) != Some(n) {
            return Err(anyhow!("the iterator announces another length than the store"));
        }
        let k = k.max(1);
        Ok(match way {
            "collect" => num((&s).into_par_iter().collect::<Vec<E>>()),
            "collect-val" => num(s.into_par_iter().collect::<Vec<E>>()),
            "rev" => back((&s).rev().collect::<Vec<E>>()),
            "rev-val" => back(s.rev().collect::<Vec<E>>()),
            "enumerate" => (&s).enumerate().map(|(i, e)| (i, e.as_ref().to_vec())).collect(),
            "max-len" => num((&s).with_max_len(k).collect::<Vec<E>>()),
            "min-len" => num((&s).with_min_len(k).collect::<Vec<E>>()),
            "chunks" => num((&s).chunks(k).map(|c| c.into_iter().collect::<Vec<E>>()).collect::<Vec<_>>().into_iter().flatten().collect()),
            "zip" => (&s).zip(0..n).with_max_len(k).map(|(e, i)| (i, e.as_ref().to_vec())).collect(),
            "skip" => {
                let d = k.min(n);
                (&s).skip(d).enumerate().map(|(i, e)| (i + d, e.as_ref().to_vec())).collect()
            }
            "take" => num((&s).take(k).collect::<Vec<E>>()),
            "step" => (&s).step_by(k).enumerate().map(|(i, e)| (i * k, e.as_ref().to_vec())).collect(),
            "fold" => num((&s).with_max_len(k).fold(Vec::new, |mut v, e| { v.push(e); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a })),
            "filter" => num((&s).filter(|_| true).collect::<Vec<E>>()),
            "flat" => num(s.flat_map_iter(|e| std::iter::once(e)).collect::<Vec<E>>()),
            "for-each" => {
                let o = std::sync::Mutex::new(vec![]);
                (&s).enumerate().with_max_len(k).for_each(|(i, e)| o.lock().unwrap().push((i, e.as_ref().to_vec())));
                let mut v = o.into_inner().unwrap();
                v.sort();
                v
            }
            "count" => {
                let c = (&s).count();
                if c != n {
                    return Err(anyhow!("parallel count {} of a store with {} elements", c, n));
                }
                num((&s).collect::<Vec<E>>())
            }
            "split" => {
                let (mut a, b) = rayon::join(|| (&s).take(k.min(n)).collect::<Vec<E>>(), || (&s).skip(k.min(n)).collect::<Vec<E>>());
                a.extend(b);
                num(a)
            }
            "two-ends" => {
                // from both ends at once, pairing position i with n-1-i
                let v: Vec<(E, E)> = (&s).zip((&s).rev()).with_max_len(k).collect();
                let m = v.len();
                let mut o = vec![];
                for (i, (a, b)) in v.iter().enumerate() {
                    o.push((i, a.as_ref().to_vec()));
                    if v[m - 1 - i].0.as_ref() != b.as_ref() {
                        return Err(anyhow!("element {} from the back differs from element {} from the front", i, m - 1 - i));
                    }
                }
                o
            }
            "position" => {
                // the first place where an element equals the one at k
                let v = (&s).collect::<Vec<E>>();
                if n > 0 {
                    let w = v[k % n].clone();
                    let first = v.iter().position(|e| *e == w);
                    let got = (&s).position_first(|e| e == w);
                    if got != first {
                        return Err(anyhow!("position_first {:?}, expected {:?}", got, first));
                    }
                }
                num(v)
            }
            x => return Err(anyhow!("harness: no way {}", x)),
        })
    }
    fn tree_from(&self, way: &str, data: &[u8], cfg: Option<StoreConfig>, tree_cfg: Option<StoreConfig>, faults: &dyn Fn(bool)) -> Result<Tree> {
        let n = data.len() / E::byte_len();
        let s = match cfg {
            None => S::new_from_slice(n, data)?,
            Some(c) => S::new_from_slice_with_config(n, 2, data, c)?,
        };
        faults(true);
        let t: Base<E, A, D, U> = match (way, tree_cfg) {
            ("val", None) => MerkleTree::from_par_iter(s)?,
            ("val", Some(c)) => MerkleTree::from_par_iter_with_config(s, c)?,
            ("rev", None) => MerkleTree::from_par_iter(s.rev())?,
            ("rev", Some(c)) => MerkleTree::from_par_iter_with_config(s.rev(), c)?,
            (_, None) => MerkleTree::from_par_iter(&s)?,
            (_, Some(c)) => MerkleTree::from_par_iter_with_config(&s, c)?,
        };
        faults(false);
        Ok(Box::new(T(t)))
    }
}
macro_rules! mkp {
    ($e:ty, $a:ty, $u:ty, $s:expr) => {
        match $s {
            ("vec", "vec") => Box::new(Par::<$e, $a, VecStore<$e>, VecStore<$e>, $u>(std::marker::PhantomData)) as Box<dyn ParCombo>,
            ("vec", _) => Box::new(Par::<$e, $a, VecStore<$e>, DiskStore<$e>, $u>(std::marker::PhantomData)),
            (_, "vec") => Box::new(Par::<$e, $a, DiskStore<$e>, VecStore<$e>, $u>(std::marker::PhantomData)),
            (_, "mmap") => Box::new(Par::<$e, $a, DiskStore<$e>, MmapStore<$e>, $u>(std::marker::PhantomData)),
            (_, "lc") => Box::new(Par::<$e, $a, DiskStore<$e>, LevelCacheStore<$e, File>, $u>(std::marker::PhantomData)),
            _ => Box::new(Par::<$e, $a, DiskStore<$e>, DiskStore<$e>, $u>(std::marker::PhantomData)),
        }
    };
}
pub const PAR_COMBOS: &[(usize, usize)] = &[(8, 2), (20, 4)];
pub fn par(elem: usize, arity: usize, from: &str, to: &str) -> Box<dyn ParCombo> {
    match (elem, arity) {
        (8, 2) => mkp!(E8, Alg, U2, (from, to)),
        (20, 4) => mkp!(E20, AlgH, U4, (from, to)),
        x => panic!("harness: no combination {:?}", x),
    }
}
