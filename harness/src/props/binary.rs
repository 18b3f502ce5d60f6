//! B01-B07: the binary Merkle tree.

use crate::engine::{enumerate, guarded, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::store::*;
use crate::{ensure, ensure_eq, text_of};
use fuel_merkle::binary::{self, in_memory, MerkleTreeError};
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{StorageInspect, StorageMutate};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type BTbl = Tbl<u64, (u64, B32)>;
pub type BHandle = Handle<u64, (u64, B32)>;
pub type BTree = binary::MerkleTree<BTbl, BHandle>;
type MapTree = binary::MerkleTree<in_memory::NodesTable, StorageMap<in_memory::NodesTable>>;

/// The content of a leaf, possibly derived from what the tree has produced so far.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    Blob(Blob),
    /// The same data as an earlier leaf.
    Same(u16),
    /// The hash of an earlier leaf.
    LeafHash(u16),
    /// Two neighbouring leaf hashes.
    Pair(u16),
    /// The preimage of an inner node: 0x01 and two leaf hashes.
    NodePreimage(u16),
    /// The current root.
    Root,
}

pub fn data() -> BoxedStrategy<Data> {
    prop_oneof![
        12 => blob().prop_map(Data::Blob),
        2 => any::<u16>().prop_map(Data::Same),
        1 => any::<u16>().prop_map(Data::LeafHash),
        1 => any::<u16>().prop_map(Data::Pair),
        1 => any::<u16>().prop_map(Data::NodePreimage),
        1 => Just(Data::Root),
    ]
    .boxed()
}

fn any_data() -> BoxedStrategy<Data> {
    prop_oneof![9 => data(), 1 => any_blob().prop_map(Data::Blob)].boxed()
}

/// A proof index, relative to the leaf count.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Idx {
    In(u64),
    Past(u64),
    Abs(u64),
    /// A valid index plus a power of two.
    Alias(u64, u8),
    /// Counted from the largest 64-bit value downwards.
    FromMax(u64),
}

impl Idx {
    pub fn resolve(&self, n: u64) -> u64 {
        match *self {
            Idx::In(i) => i % n.max(1),
            Idx::Past(d) => n.wrapping_add(d),
            Idx::Abs(i) => i,
            Idx::Alias(i, k) => (i % n.max(1)) | 1 << (k & 63),
            Idx::FromMax(d) => u64::MAX - d,
        }
    }
}

pub fn idx() -> BoxedStrategy<Idx> {
    prop_oneof![
        8 => any::<u64>().prop_map(Idx::In),
        2 => (0u64..4).prop_map(Idx::Past),
        1 => wide_u64().prop_map(Idx::Abs),
        2 => (any::<u64>(), 0u8..64).prop_map(|(i, k)| Idx::Alias(i, k)),
        1 => (0u64..4).prop_map(Idx::FromMax),
    ]
    .boxed()
}

/// A tree over a visible storage with its model.
pub struct World {
    pub h: BHandle,
    pub tree: BTree,
    pub model: RefBinary,
    pub data: Vec<Vec<u8>>,
}

impl World {
    pub fn new(h: BHandle) -> Self {
        World { tree: BTree::new(h.clone()), h, model: RefBinary::default(), data: vec![] }
    }

    pub fn resolve(&self, d: &Data) -> Vec<u8> {
        let n = self.data.len();
        let leaf = |i: usize| self.model.leaves[i % n];
        match d {
            Data::Blob(b) => b.bytes(),
            _ if n == 0 => vec![],
            Data::Same(i) => self.data[*i as usize % n].clone(),
            Data::LeafHash(i) => leaf(*i as usize).to_vec(),
            Data::Pair(i) => [leaf(*i as usize), leaf(*i as usize + 1)].concat(),
            Data::NodePreimage(i) => {
                let mut v = vec![1];
                v.extend([leaf(*i as usize), leaf(*i as usize + 1)].concat());
                v
            }
            Data::Root => self.model.root().to_vec(),
        }
    }

    pub fn model_push(&mut self, bytes: &[u8]) {
        self.model.push(bytes);
        self.data.push(bytes.to_vec());
    }

    pub fn push(&mut self, bytes: &[u8]) -> R {
        if let Err(e) = self.tree.push(bytes) {
            return Err(format!("push {} failed on a sound storage: {e:?}", self.model.len()));
        }
        self.model_push(bytes);
        Ok(())
    }

    pub fn check_root(&self, what: &str) -> R {
        ensure_eq!(
            hex(&self.tree.root()),
            hex(&self.model.root()),
            "{what}: root of {} leaves",
            self.model.len()
        );
        Ok(())
    }

    pub fn check_proof(&self, i: u64, what: &str) -> R {
        check_proof(&self.tree, &self.model, i, what)
    }

    /// All proofs of a small tree, a spread of them in a large one.
    pub fn check_proofs(&self, what: &str) -> R {
        for i in spread(self.model.len()) {
            self.check_proof(i, what)?;
        }
        Ok(())
    }
}

fn spread(n: u64) -> Vec<u64> {
    if n <= 20 {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = vec![0, 1, n / 3, n / 2, n - 2, n - 1];
    let top = 1u64 << (63 - n.leading_zeros());
    v.extend([top - 1, top.min(n - 1)]);
    v.sort();
    v.dedup();
    v
}

pub fn check_proof<S>(
    tree: &binary::MerkleTree<BTbl, S>,
    model: &RefBinary,
    i: u64,
    what: &str,
) -> R
where
    S: StorageInspect<BTbl, Error = Boom>,
{
    let n = model.len();
    match tree.prove(i) {
        Ok((root, proof)) => {
            ensure!(i < n, "{what}: a proof for index {i} of {n} leaves");
            ensure_eq!(hex(&root), hex(&model.root()), "{what}: proven root, index {i} of {n}");
            let want = model.proof(i);
            ensure!(
                proof == want,
                "{what}: proof of index {i} of {n} is {}, expected {}",
                short(&proof.iter().map(|b| hex(b)).collect::<Vec<_>>()),
                short(&want.iter().map(|b| hex(b)).collect::<Vec<_>>())
            );
            ensure!(fold_proof(n, i, &proof) == Some(root), "{what}: proof {i} of {n} does not fold");
        }
        Err(MerkleTreeError::InvalidProofIndex(j)) => {
            ensure!(i >= n, "{what}: index {i} of {n} leaves refused");
            ensure!(j == i, "{what}: index {i} refused as {j}");
        }
        Err(e) => return Err(format!("{what}: proof of {i} of {n} failed: {e:?}")),
    }
    Ok(())
}

fn check_memory_proof(tree: &mut in_memory::MerkleTree, model: &RefBinary, i: u64) -> R {
    let n = model.len();
    let want = (i < n).then(|| (model.root(), model.proof(i)));
    let got = tree.prove(i);
    ensure!(got == want, "in-memory proof of index {i} of {n}: got {}, expected {}", short(&got), short(&want));
    Ok(())
}

fn records_eq(got: &BTreeMap<u64, (u64, B32)>, want: &BTreeMap<u64, (u64, B32)>, what: &str) -> R {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{what}: no record at {k}")),
            Some(g) if g != v => {
                return Err(format!("{what}: record at {k} is ({}, {}), expected ({}, {})", g.0, hex(&g.1), v.0, hex(&v.1)))
            }
            _ => {}
        }
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "{what}: unexpected record at {k}");
    }
    Ok(())
}

// ---------------------------------------------------------------- B01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ReadOp {
    Push(Data),
    Many(u8, Data),
    Root,
    Prove(Idx),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B01 {
    /// The storage already holds a tree of this many leaves.
    dirty: u16,
    ops: Vec<ReadOp>,
}

fn b01_gen() -> BoxedStrategy<B01> {
    let op = prop_oneof![
        10 => any_data().prop_map(ReadOp::Push),
        1 => (0u8..40, data()).prop_map(|(n, d)| ReadOp::Many(n, d)),
        2 => Just(ReadOp::Root),
        2 => idx().prop_map(ReadOp::Prove),
    ];
    (prop_oneof![3 => Just(0u16), 1 => 1u16..60], prop::collection::vec(op, 0..24))
        .prop_map(|(dirty, ops)| B01 { dirty, ops })
        .boxed()
}

struct Three {
    w: World,
    map: MapTree,
    mem: in_memory::MerkleTree,
}

impl Three {
    fn new(h: BHandle) -> Self {
        Three {
            w: World::new(h),
            map: MapTree::new(StorageMap::new()),
            mem: in_memory::MerkleTree::new(),
        }
    }

    fn push(&mut self, bytes: &[u8]) -> R {
        self.w.push(bytes)?;
        ensure!(self.map.push(bytes).is_ok(), "push to the map tree failed");
        self.mem.push(bytes);
        self.roots()
    }

    fn roots(&mut self) -> R {
        let want = self.w.model.root();
        let n = self.w.model.len();
        ensure_eq!(hex(&self.w.tree.root()), hex(&want), "root of {n} leaves");
        ensure_eq!(hex(&self.map.root()), hex(&want), "root of {n} leaves, storage map");
        ensure_eq!(hex(&self.mem.root()), hex(&want), "root of {n} leaves, in-memory");
        Ok(())
    }
}

fn dirty(n: u16) -> BHandle {
    let mut m = RefBinary::default();
    for i in 0..n {
        m.push(&[b"old", &i.to_be_bytes()[..]].concat());
    }
    Handle::from_map(m.layout())
}

fn b01_check(c: &B01, ctx: &mut Ctx) -> R {
    let mut t = Three::new(dirty(c.dirty));
    t.roots()?;
    let (mut reads_between, mut reads) = (false, false);
    let mut derived = false;
    for op in &c.ops {
        match op {
            ReadOp::Push(d) => {
                let bytes = t.w.resolve(d);
                derived |= !matches!(d, Data::Blob(_));
                ctx.label_if(bytes.is_empty(), "empty leaf");
                ctx.label_if(bytes.len() > 300, "long leaf");
                reads_between |= reads;
                t.push(&bytes)?;
                ctx.compared += 3;
            }
            ReadOp::Many(n, d) => {
                for _ in 0..*n {
                    let bytes = t.w.resolve(d);
                    t.push(&bytes)?;
                    ctx.compared += 3;
                }
                ctx.label_if(*n > 1, "duplicate run");
            }
            ReadOp::Root => {
                t.roots()?;
                t.roots()?;
                reads = true;
            }
            ReadOp::Prove(i) => {
                let n = t.w.model.len();
                let i = i.resolve(n);
                let _ = t.w.tree.prove(i);
                let _ = t.map.prove(i);
                let _ = t.mem.prove(i);
                t.roots()?;
                reads = true;
            }
        }
    }
    let n = t.w.model.len();
    ctx.label_if(reads_between, "read between pushes");
    ctx.label_if(c.dirty > 0, "dirty storage");
    ctx.label_if(derived, "data derived from the tree");
    ctx.label_if(n > 0 && !n.is_power_of_two(), "incomplete tree");
    ctx.nontrivial_if(n >= 3);
    Ok(())
}

/// A long run of pushes, with the root checked after every one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    n: u32,
    len: u32,
    seed: u32,
    /// Proofs are checked every this many pushes.
    stride: u32,
}

fn grow_check(c: &Grow, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut mem = in_memory::MerkleTree::default();
    for i in 0..c.n {
        let mut bytes = expand(c.seed ^ i, c.len as usize);
        bytes.extend(i.to_be_bytes());
        if let Err(e) = w.tree.push(&bytes) {
            return Err(format!("push {i} failed: {e:?}"));
        }
        w.model.push(&bytes);
        mem.push(&bytes);
        w.check_root("grow")?;
        if i % 7 == 0 || i + 1 == c.n {
            ensure_eq!(hex(&mem.root()), hex(&w.model.root()), "in-memory root of {} leaves", i + 1);
        }
        ctx.compared += 1;
        if (i + 1) % c.stride == 0 || i + 1 == c.n {
            let n = w.model.len();
            for j in spread(n).into_iter().chain([
                (c.seed as u64).wrapping_mul(i as u64 + 1) % n,
                n,
                n + 1,
                n.next_power_of_two(),
            ]) {
                w.check_proof(j, "grow")?;
                ctx.compared += 1;
            }
            check_memory_proof(&mut mem, &w.model, (c.seed as u64 ^ i as u64) % n)?;
        }
    }
    ctx.label_if(c.n > 1024, "over 1024 leaves");
    ctx.label_if(c.n > 65536, "over 65536 leaves");
    ctx.nontrivial_if(c.n >= 3);
    Ok(())
}

fn grow_gen() -> BoxedStrategy<Grow> {
    let n = prop_oneof![6 => 3u32..600, 3 => 600u32..3000, 1 => 3000u32..9000];
    (n, 0u32..40, any::<u32>(), 20u32..400)
        .prop_map(|(n, len, seed, stride)| Grow { n, len, seed, stride })
        .boxed()
}

fn large(i: u64) -> Grow {
    let n = [66_000u32, 132_000, 270_000, 530_000][i as usize % 4];
    Grow { n, len: 0, seed: i as u32, stride: 4999 }
}

/// Leaves of one length and slight variations of it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Length {
    pub len: u32,
    pub seed: u32,
}

pub fn length_case(i: u64) -> Length {
    Length { len: some_length(i), seed: i as u32 }
}

fn length_check(c: &Length, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut mem = in_memory::MerkleTree::new();
    for (i, data) in variants(c.len, c.seed).into_iter().enumerate() {
        w.push(&data)?;
        mem.push(&data);
        let what = format!("leaf {i} of {} bytes", data.len());
        w.check_root(&what)?;
        ensure_eq!(hex(&mem.root()), hex(&w.model.root()), "{what}: in-memory root");
        ctx.compared += 2;
    }
    w.check_proofs("lengths")?;
    ctx.nontrivial = c.len > 0;
    ctx.label_if(c.len > 1 << 16, "over 65536 bytes");
    Ok(())
}

pub fn b01() -> Property {
    Property {
        id: "B01",
        subs: vec![
            sub("histories", "random pushes (lengths 0..=300 around hash block boundaries, some to 131073; contents fixed, random or derived from the tree's own hashes) with roots and proofs read in between, on three trees (recording storage, possibly holding another tree's records; storage map; in-memory); non-trivial: at least 3 leaves", 150_000, 1_800_000, b01_gen, b01_check),
            sub("growth", "one long run of pushes with the root checked after each push and proofs at a stride; non-trivial: at least 3 leaves", 1_000, 12_000, grow_gen, grow_check),
            enumerate("large", "66 000 to 530 000 pushes with the root checked after each", 2, 4, large, grow_check),
            enumerate("lengths", "leaves of every length up to 1100 and around powers of two up to 16 MiB, with others that differ from them in one byte or in length; non-trivial: not empty", LENGTHS, ALL_LENGTHS, length_case, length_check),
        ],
    }
}

// ---------------------------------------------------------------- B02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B02 {
    n: u32,
    data: Vec<Data>,
    seed: u32,
    idx: Vec<Idx>,
    more: u8,
}

fn b02_gen() -> BoxedStrategy<B02> {
    let n = prop_oneof![
        1 => Just(0u32),
        10 => 1u32..80,
        3 => (1u32..10, -2i32..4).prop_map(|(k, d)| ((1i32 << k) + d).max(0) as u32),
        2 => 80u32..400,
        1 => 400u32..2500,
    ];
    (
        n,
        prop::collection::vec(data(), 0..6),
        any::<u32>(),
        prop::collection::vec(idx(), 1..12),
        0u8..20,
    )
        .prop_map(|(n, data, seed, idx, more)| B02 { n, data, seed, idx, more })
        .boxed()
}

fn b02_check(c: &B02, ctx: &mut Ctx) -> R {
    let mut t = Three::new(Handle::new());
    for d in &c.data {
        let bytes = t.w.resolve(d);
        t.push(&bytes)?;
    }
    for i in 0..c.n {
        let bytes = expand(c.seed ^ i, (i % 5) as usize);
        t.w.push(&bytes)?;
        ensure!(t.map.push(&bytes).is_ok(), "push to the map tree failed");
        t.mem.push(&bytes);
    }
    for phase in 0..2 {
        let n = t.w.model.len();
        let all: Vec<u64> = if n <= 130 { (0..n).collect() } else { spread(n) };
        let mut wanted = all;
        wanted.extend([n, n + 1, n + 2, n.next_power_of_two(), n * 2, n * 2 + 1]);
        wanted.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 2 + 2, 1 << 32]);
        wanted.extend(c.idx.iter().map(|i| i.resolve(n)));
        for i in wanted {
            t.w.check_proof(i, "recording storage")?;
            let got = t.map.prove(i);
            match got {
                Ok((r, p)) => ensure!(
                    i < n && r == t.w.model.root() && p == t.w.model.proof(i),
                    "storage map: wrong proof for index {i} of {n}"
                ),
                Err(MerkleTreeError::InvalidProofIndex(j)) => {
                    ensure!(i >= n && j == i, "storage map: index {i} of {n} refused as {j}")
                }
                Err(e) => return Err(format!("storage map: index {i} of {n}: {e:?}")),
            }
            check_memory_proof(&mut t.mem, &t.w.model, i)?;
            ctx.compared += 3;
            ctx.label_if(i >= n, "index outside the tree");
            ctx.label_if(i < n, "index inside the tree");
        }
        t.roots()?;
        if phase == 0 {
            for i in 0..c.more {
                t.push(&expand(c.seed ^ 0x8000_0000 ^ i as u32, 3))?;
            }
        }
        ctx.label_if(n > 0 && !n.is_power_of_two(), "incomplete tree");
        ctx.nontrivial_if(n >= 2);
    }
    ctx.label_if(c.more > 0, "pushes between proofs");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size(u64);

fn b02_size(c: &Size, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut mem = in_memory::MerkleTree::new();
    for i in 0..c.0 {
        w.push(&i.to_be_bytes())?;
        mem.push(&i.to_be_bytes());
    }
    for i in 0..c.0 + 3 {
        w.check_proof(i, "every index")?;
        check_memory_proof(&mut mem, &w.model, i)?;
        ctx.compared += 2;
    }
    ctx.nontrivial_if(c.0 >= 2);
    Ok(())
}

pub fn b02() -> Property {
    Property {
        id: "B02",
        subs: vec![
            sub("proofs", "trees of up to 2500 leaves on three storages; every index of trees up to 130 leaves, a spread of larger ones, and indices outside the tree up to u64::MAX, again after further pushes; non-trivial: at least 2 leaves", 36_000, 430_000, b02_gen, b02_check),
            enumerate("sizes", "every index, and three beyond, of the tree of n leaves, n = 0, 1, 2, ...; non-trivial: n at least 2", 400, 1_500, Size, b02_size),
            sub("growth", "proofs at a stride during long runs of pushes; non-trivial: at least 3 leaves", 700, 8_000, grow_gen, grow_check),
            enumerate("large", "66 000 to 530 000 pushes with proofs at a stride; non-trivial: at least 3 leaves", 2, 4, large, grow_check),
            sub("huge", "proofs of trees of up to 2^63 - 1 leaves over a storage that computes its records, also after further pushes; non-trivial: over 2^16 leaves", 30_000, 400_000, b07_gen, b07_lax),
        ],
    }
}

// ---------------------------------------------------------------- B03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HistOp {
    Push(Data),
    Many(u8, Data),
    /// Numbered distinct leaves.
    Run(u16),
    Root,
    Prove(Idx),
    Reload,
    /// Reload at an earlier count.
    Rollback(u32),
    /// Reload a few leaves back.
    Undo(u8),
    /// A new tree over the same storage.
    Fresh,
    /// Push again the leaves the last rollback dropped.
    Replay(u8),
}

fn hist_gen() -> BoxedStrategy<Vec<HistOp>> {
    let op = prop_oneof![
        8 => data().prop_map(HistOp::Push),
        1 => (0u8..20, data()).prop_map(|(n, d)| HistOp::Many(n, d)),
        2 => (1u16..70).prop_map(HistOp::Run),
        1 => Just(HistOp::Root),
        3 => idx().prop_map(HistOp::Prove),
        4 => Just(HistOp::Reload),
        3 => any::<u32>().prop_map(HistOp::Rollback),
        2 => (0u8..10).prop_map(HistOp::Undo),
        1 => Just(HistOp::Fresh),
        2 => (1u8..30).prop_map(HistOp::Replay),
    ];
    prop::collection::vec(op, 0..30).boxed()
}

fn load(h: &BHandle, n: u64) -> Result<BTree, String> {
    BTree::load(h.clone(), n).map_err(|e| format!("load of {n} leaves failed: {e:?}"))
}

/// Loads with read access only and checks the result against the model.
fn check_read_only(w: &World, what: &str) -> R {
    let n = w.model.len();
    let before = w.h.ctl.writes.get();
    let ro = binary::MerkleTree::<BTbl, _>::load(ReadOnly(w.h.clone()), n)
        .map_err(|e| format!("{what}: read-only load of {n} leaves failed: {e:?}"))?;
    ensure_eq!(hex(&ro.root()), hex(&w.model.root()), "{what}: root of a read-only load of {n}");
    for i in spread(n).into_iter().chain([n]) {
        check_proof(&ro, &w.model, i, what)?;
    }
    ensure!(w.h.ctl.writes.get() == before, "{what}: a load wrote to storage");
    Ok(())
}

fn b03_check(c: &Vec<HistOp>, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut dropped: Vec<Vec<u8>> = Vec::new();
    let mut pushes_after_reload = false;
    let mut reloaded = false;
    let mut count = 0u32;
    for op in c {
        let before = w.model.len();
        match op {
            HistOp::Push(d) => {
                let b = w.resolve(d);
                w.push(&b)?;
            }
            HistOp::Many(n, d) => {
                for _ in 0..*n {
                    let b = w.resolve(d);
                    w.push(&b)?;
                }
            }
            HistOp::Run(n) => {
                for _ in 0..*n {
                    count += 1;
                    w.push(&count.to_be_bytes())?;
                }
            }
            HistOp::Replay(n) => {
                for _ in 0..*n {
                    if dropped.is_empty() {
                        break;
                    }
                    let b = dropped.remove(0);
                    w.push(&b)?;
                    ctx.label("dropped leaves pushed again");
                }
            }
            HistOp::Root => w.check_root("read")?,
            HistOp::Prove(i) => w.check_proof(i.resolve(w.model.len()), "read")?,
            HistOp::Reload => {
                w.tree = load(&w.h, w.model.len())?;
                reloaded = true;
                ctx.label("reload");
                w.check_proofs("after reload")?;
            }
            HistOp::Rollback(_) | HistOp::Undo(_) | HistOp::Fresh => {
                let n = w.model.len();
                let k = match op {
                    HistOp::Rollback(x) => *x as u64 % (n + 1),
                    HistOp::Undo(d) => n.saturating_sub(*d as u64),
                    _ => 0,
                };
                dropped = w.data[k as usize..].to_vec();
                w.model.truncate(k);
                w.data.truncate(k as usize);
                w.tree = match op {
                    HistOp::Fresh => BTree::new(w.h.clone()),
                    _ => load(&w.h, k)?,
                };
                reloaded = true;
                ctx.label_if(k < n, "rollback");
                ctx.label_if(k == 0, "rollback to nothing");
                w.check_proofs("after rollback")?;
            }
        }
        if w.model.len() > before && reloaded {
            pushes_after_reload = true;
        }
        w.check_root("history")?;
        ctx.compared += 1;
    }
    w.check_proofs("at the end")?;
    w.check_proof(w.model.len(), "at the end")?;
    check_read_only(&w, "at the end")?;
    // Any earlier count of the current tree loads from the same storage.
    let n = w.model.len();
    let mut counts: Vec<u64> = if n <= 24 { (0..=n).collect() } else { spread(n) };
    counts.push(n);
    let mut sub = w.model.clone();
    counts.sort_by(|a, b| b.cmp(a));
    for k in counts {
        sub.truncate(k);
        let t = load(&w.h, k)?;
        ensure_eq!(hex(&t.root()), hex(&sub.root()), "load at {k} of {n} leaves");
        for i in spread(k).into_iter().chain([k, k + 1]) {
            check_proof(&t, &sub, i, "load at an earlier count")?;
        }
        ctx.compared += 2;
    }
    ctx.label_if(pushes_after_reload, "pushes after a reload");
    ctx.nontrivial_if(pushes_after_reload && n >= 2);
    Ok(())
}

/// Loads at one count of a tree, then grows it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LoadAt {
    n: u32,
    k: u32,
    more: u16,
    seed: u32,
}

fn load_at_gen() -> BoxedStrategy<LoadAt> {
    let n = prop_oneof![6 => 1u32..300, 2 => 300u32..3000, 1 => 3000u32..20_000];
    (n, any::<u32>(), 0u16..300, any::<u32>())
        .prop_map(|(n, k, more, seed)| LoadAt { n, k, more, seed })
        .boxed()
}

fn load_at_check(c: &LoadAt, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    for i in 0..c.n {
        let b = i.to_be_bytes();
        if let Err(e) = w.tree.push(&b) {
            return Err(format!("push failed: {e:?}"));
        }
        w.model.push(&b);
    }
    let k = c.k as u64 % (c.n as u64 + 1);
    w.model.truncate(k);
    w.tree = load(&w.h, k)?;
    w.check_root("loaded")?;
    w.check_proofs("loaded")?;
    for j in 0..c.more {
        let b = expand(c.seed ^ j as u32, 5);
        if let Err(e) = w.tree.push(&b) {
            return Err(format!("push after a load failed: {e:?}"));
        }
        w.model.push(&b);
        w.check_root("grown after a load")?;
        ctx.compared += 1;
        if j % 37 == 36 {
            w.tree = load(&w.h, w.model.len())?;
        }
    }
    w.check_proofs("grown after a load")?;
    check_read_only(&w, "grown after a load")?;
    ctx.label_if(c.n > 1024, "over 1024 leaves");
    ctx.nontrivial_if(k >= 2 && c.more > 0);
    Ok(())
}

/// Enumerates n and k exhaustively for small n: case number to pair.
fn load_pair(i: u64) -> LoadAt {
    let mut n = 0u64;
    let mut i = i;
    while i > n {
        i -= n + 1;
        n += 1;
    }
    LoadAt { n: n as u32, k: i as u32, more: 9, seed: (n * 1000 + i) as u32 }
}

pub fn b03() -> Property {
    Property {
        id: "B03",
        subs: vec![
            sub("histories", "random histories of pushes, reads, reloads at the current count, rollbacks to an earlier count, fresh trees over the used storage and re-pushes of dropped leaves; root after every step, proofs after every reload, every count (or a spread) loaded at the end, also with read access only; non-trivial: pushes after a reload and at least 2 leaves", 150_000, 1_800_000, hist_gen, b03_check),
            sub("load-at", "a tree of up to 20 000 leaves loaded at one count and grown with further reloads; non-trivial: at least 2 leaves loaded and some pushed", 4_000, 48_000, load_at_gen, load_at_check),
            enumerate("pairs", "every (n, k) with k <= n, n = 0, 1, 2, ...: load k of n leaves and push 9 more; non-trivial: k at least 2", 8_000, 33_000, load_pair, load_at_check),
            sub("huge", "trees of up to 2^63 - 1 leaves loaded from a storage that computes their records, read, pushed to and reloaded; non-trivial: over 2^16 leaves", 20_000, 250_000, b07_gen, b07_lax),
        ],
    }
}

// ---------------------------------------------------------------- B04

fn b04_check(c: &Vec<HistOp>, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut count = 0u32;
    let mut old = w.h.records();
    let (mut reads, mut reloads) = (false, false);
    for op in c {
        let writes = w.h.ctl.writes.get();
        let mut reading = false;
        match op {
            HistOp::Push(d) => {
                let b = w.resolve(d);
                w.push(&b)?;
            }
            HistOp::Many(n, d) => {
                for _ in 0..*n {
                    let b = w.resolve(d);
                    w.push(&b)?;
                }
            }
            HistOp::Run(n) => {
                for _ in 0..*n {
                    count += 1;
                    w.push(&count.to_be_bytes())?;
                    if count % 5 == 0 {
                        records_eq(&w.h.records(), &w.model.layout(), "after a push")?;
                    }
                }
            }
            HistOp::Root | HistOp::Fresh => {
                let _ = w.tree.root();
                reading = true;
            }
            HistOp::Prove(i) => {
                let _ = w.tree.prove(i.resolve(w.model.len()));
                reading = true;
            }
            HistOp::Reload | HistOp::Replay(_) => {
                w.tree = load(&w.h, w.model.len())?;
                reading = true;
                reloads = true;
            }
            HistOp::Rollback(x) => {
                // Looking at an earlier state writes nothing either.
                let k = *x as u64 % (w.model.len() + 1);
                let t = load(&w.h, k)?;
                let _ = (t.root(), t.prove(0));
                reading = true;
            }
            HistOp::Undo(d) => {
                let _ = w.tree.prove(w.model.len().saturating_sub(*d as u64));
                reading = true;
            }
        }
        let now = w.h.records();
        records_eq(&now, &w.model.layout(), &format!("{} leaves", w.model.len()))?;
        for (k, v) in &old {
            ensure!(now.get(k) == Some(v), "record {k} changed");
        }
        if reading {
            reads = true;
            ensure!(now == old, "{op:?} changed the storage");
            ensure!(w.h.ctl.writes.get() == writes, "{op:?} wrote to storage");
        }
        ctx.compared += now.len() as u64;
        old = now;
    }
    let n = w.model.len();
    ctx.label_if(reads, "reads");
    ctx.label_if(reloads, "reloads");
    ctx.label_if(n > 64, "over 64 leaves");
    ctx.nontrivial_if(n >= 3 && reads);
    Ok(())
}

fn b04_size(c: &Size, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    for i in 0..c.0 {
        w.push(&i.to_be_bytes())?;
    }
    let _ = w.tree.root();
    for i in spread(c.0) {
        let _ = w.tree.prove(i);
    }
    records_eq(&w.h.records(), &w.model.layout(), &format!("{} leaves", c.0))?;
    ctx.compared += w.model.len();
    ctx.nontrivial_if(c.0 >= 3);
    Ok(())
}

fn big_size(i: u64) -> Size {
    Size([4095, 4096, 9999, 65_535, 65_537, 140_000, 4097, 20_000, 131_071, 262_144, 530_000][i as usize % 11])
}

pub fn b04() -> Property {
    Property {
        id: "B04",
        subs: vec![
            sub("histories", "random pushes, reads, proofs and reloads; the storage's whole content is compared with the complete subtrees computed by the model after every step; non-trivial: at least 3 leaves and a read", 100_000, 1_200_000, hist_gen, b04_check),
            enumerate("sizes", "the storage of n pushed leaves, n = 0, 1, 2, ...; non-trivial: n at least 3", 1_500, 4_000, Size, b04_size),
            enumerate("large", "sizes from 4095 to 530 000", 6, 11, big_size, b04_size),
            sub("huge", "pushes onto trees of up to 2^63 - 1 leaves over a storage that computes its records: each push writes exactly the subtrees it completes, each with its position; non-trivial: over 2^16 leaves", 20_000, 250_000, b07_gen, b07_lax),
        ],
    }
}

// ---------------------------------------------------------------- B05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct B05 {
    n: u32,
    /// Which records are lost, as indices into the sorted keys.
    lost: Vec<u16>,
    /// Lose everything in a range of positions too.
    range: Option<(u16, u8)>,
    /// Leaf count to load.
    count: Count,
    /// Lose the records after the load instead of before.
    late: bool,
    idx: Vec<Idx>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Count {
    Same,
    Below(u32),
    Above(u64),
    Abs(u64),
}

pub fn b05_gen() -> BoxedStrategy<B05> {
    let n = prop_oneof![8 => 0u32..40, 2 => 40u32..300];
    let count = prop_oneof![
        6 => Just(Count::Same),
        2 => any::<u32>().prop_map(Count::Below),
        2 => (1u64..20).prop_map(Count::Above),
        1 => wide_u64().prop_map(|x| Count::Abs(x >> 1)),
    ];
    (
        n,
        prop::collection::vec(any::<u16>(), 0..6),
        prop::option::weighted(0.15, (any::<u16>(), 1u8..20)),
        count,
        any::<bool>(),
        prop::collection::vec(idx(), 0..4),
    )
        .prop_map(|(n, lost, range, count, late, idx)| B05 { n, lost, range, count, late, idx })
        .boxed()
}


fn b05_check(c: &B05, ctx: &mut Ctx) -> R {
    losses(c, ctx, false)
}

/// With `named`, errors must also name a record that is missing and needed.
pub fn losses(c: &B05, ctx: &mut Ctx, named: bool) -> R {
    let mut w = World::new(Handle::new());
    for i in 0..c.n {
        w.push(&i.to_be_bytes())?;
    }
    let n = c.n as u64;
    let keys: Vec<u64> = w.h.records().into_keys().collect();
    let mut lost = BTreeSet::new();
    if !keys.is_empty() {
        for l in &c.lost {
            lost.insert(keys[*l as usize % keys.len()]);
        }
        if let Some((from, len)) = c.range {
            let from = from as usize % keys.len();
            lost.extend(keys.iter().skip(from).take(len as usize));
        }
    }
    let k = match c.count {
        Count::Same => n,
        Count::Below(x) => x as u64 % (n + 1),
        Count::Above(d) => n + d,
        Count::Abs(x) => x.min((1 << 63) - 1),
    };
    let lose = || {
        for l in &lost {
            w.h.map.borrow_mut().remove(l);
        }
    };
    if !c.late {
        lose();
    }
    let loaded = BTree::load(w.h.clone(), k);
    let peak_keys: Vec<u64> = peaks(k).iter().map(|&(h, o)| position(h, o) as u64).collect();
    let peak_missing = peak_keys.iter().any(|p| !w.h.map.borrow().contains_key(p));
    ctx.compared += 1;
    ctx.label_if(k > n, "count beyond the storage");
    let tree = match loaded {
        Ok(t) => t,
        Err(MerkleTreeError::LoadError(key)) => {
            ensure!(peak_missing, "load of {k} of {n} leaves failed though every peak is stored");
            ensure!(
                !named || peak_keys.contains(&key) && !w.h.map.borrow().contains_key(&key),
                "load of {k} of {n} leaves names the record at {key}; the peaks are at {peak_keys:?}, lost {lost:?}"
            );
            if named {
                let e = MerkleTreeError::<Boom>::LoadError(key);
                text_says(text_of!(&e), &format!("{e:?}"), |t| numbers(t).contains(&key))?;
            }
            ctx.label("load refused");
            ctx.nontrivial = true;
            return Ok(());
        }
        Err(e) => return Err(format!("load of {k} of {n} leaves: {e:?}")),
    };
    ensure!(k <= n, "a storage of {n} leaves loaded as {k} leaves");
    let mut model = w.model.clone();
    model.truncate(k);
    ensure_eq!(hex(&tree.root()), hex(&model.root()), "root loaded without {lost:?}");
    if c.late {
        lose();
        ensure_eq!(hex(&tree.root()), hex(&model.root()), "root after losing {lost:?}");
    }
    let mut wanted: Vec<u64> = if k <= 40 { (0..k).collect() } else { spread(k) };
    wanted.extend(c.idx.iter().map(|i| i.resolve(k)));
    for i in wanted {
        let r = tree.prove(i);
        ctx.compared += 1;
        if i >= k {
            ensure!(
                matches!(r, Err(MerkleTreeError::InvalidProofIndex(j)) if !named || j == i),
                "index {i} of {k}: {}",
                short(&r)
            );
            if let (true, Err(e)) = (named, &r) {
                text_says(text_of!(e), &format!("{e:?}"), |t| numbers(t).contains(&i))?;
            }
            continue;
        }
        // The records the answer is made of: the leaf and its complete sibling subtrees,
        // and the peaks an incomplete sibling is folded from.
        let mut needed: Vec<u64> = vec![2 * i];
        for (_, (a, b)) in path_ranges(k, i) {
            needed.extend(cover(a, b));
        }
        needed.extend(&peak_keys);
        let missing = needed.iter().any(|p| !w.h.map.borrow().contains_key(p));
        match r {
            Ok((root, proof)) => {
                ensure!(
                    root == model.root() && proof == model.proof(i),
                    "wrong proof of {i} of {k} without {lost:?}: {}",
                    short(&proof)
                );
                ctx.label_if(!lost.is_empty() && !missing, "proof that needs no lost record");
            }
            Err(MerkleTreeError::LoadError(key)) => {
                ensure!(missing, "proof of {i} of {k} failed but needs none of {lost:?}");
                ensure!(
                    !named || needed.contains(&key) && !w.h.map.borrow().contains_key(&key),
                    "proof of {i} of {k} names the record at {key}; it needs {needed:?}, lost {lost:?}"
                );
                ctx.label("proof refused");
                ctx.nontrivial = true;
            }
            Err(e) => return Err(format!("proof of {i} of {k}: {e:?}")),
        }
    }
    Ok(())
}

/// Positions of the maximal complete subtrees of the range [a, b).
fn cover(a: u64, b: u64) -> Vec<u64> {
    let mut out = Vec::new();
    let mut s = a;
    for (h, _) in peaks(b - a) {
        out.push(position(h, s >> h) as u64);
        s += 1 << h;
    }
    out
}

/// A lost record, on its own: every record of every small tree.
fn b05_single(i: u64) -> B05 {
    let mut i = i;
    let mut n = 1u64;
    loop {
        let records: u64 = (0..64).map(|h| n >> h).sum();
        if i < records * 2 {
            return B05 {
                n: n as u32,
                lost: vec![(i / 2) as u16],
                range: None,
                count: Count::Same,
                late: i % 2 == 1,
                idx: vec![],
            };
        }
        i -= records * 2;
        n += 1;
    }
}

fn b05_count(i: u64) -> B05 {
    B05 {
        n: (i / 70) as u32,
        lost: vec![],
        range: None,
        count: if i % 70 < 6 { Count::Abs((1 << 63) - 1 - i % 70) } else { Count::Abs(i / 70 + i % 70 - 6) },
        late: false,
        idx: vec![],
    }
}

/// A huge tree that lost some of the records one proof may need.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeLoss {
    n: u64,
    seed: u32,
    idx: u64,
    /// Which of the records around the proof are lost.
    lost: Vec<u8>,
    late: bool,
    /// The count loaded exceeds the storage's by this much.
    above: Option<u8>,
}

fn huge_loss_gen() -> BoxedStrategy<HugeLoss> {
    (
        leaf_counts(),
        any::<u32>(),
        prop_oneof![3 => any::<u64>(), 1 => 0u64..3, 1 => (0u64..3).prop_map(|d| u64::MAX - d)],
        prop::collection::vec(any::<u8>(), 0..4),
        any::<bool>(),
        prop::option::weighted(0.2, any::<u8>()),
    )
        .prop_map(|(n, seed, idx, lost, late, above)| HugeLoss { n, seed, idx, lost, late, above })
        .boxed()
}

fn huge_loss_check(c: &HugeLoss, ctx: &mut Ctx) -> R {
    let s = Virtual(Rc::new(RefCell::new(VState {
        n: c.n,
        seed: c.seed,
        reads: BTreeSet::new(),
        written: BTreeMap::new(),
        lost: BTreeSet::new(),
    })));
    let n = match c.above {
        None => c.n,
        // One more leaf, or one more subtree.
        Some(a) => (c.n | 1 << (a & 63)).max(c.n + (a >> 6) as u64).min(MAX_LEAVES),
    };
    let peak_keys: Vec<u64> = peaks(n).iter().map(|&(h, o)| position(h, o) as u64).collect();
    let mut needed = peak_keys.clone();
    let i = if c.idx > u64::MAX - 3 { n.saturating_sub(1 + (u64::MAX - c.idx)) } else { c.idx % n.max(1) };
    if n > 0 {
        needed.push(2 * i);
        for (_, (a, b)) in path_ranges(n, i) {
            needed.extend(cover(a, b));
        }
    }
    let mut all: Vec<u64> = needed.clone();
    all.extend(peak_keys.iter().map(|k| k ^ 1 << 40));
    all.extend([2 * i + 1, 2 * i + 2, 0, 1]);
    let lost: BTreeSet<u64> = c.lost.iter().map(|l| all[*l as usize % all.len()]).collect();
    if !c.late {
        s.0.borrow_mut().lost = lost.clone();
    }
    let absent = |keys: &[u64]| keys.iter().any(|k| s.0.borrow().stored(*k).is_none());
    ctx.compared += 1;
    let t = match VTree::load(s.clone(), n) {
        Ok(t) => t,
        Err(MerkleTreeError::LoadError(_)) => {
            ensure!(absent(&peak_keys), "load of {n} leaves failed though every peak is stored");
            ctx.nontrivial = true;
            ctx.label("load refused");
            return Ok(());
        }
        Err(e) => return Err(format!("load of {n} leaves: {e:?}")),
    };
    ensure!(!absent(&peak_keys), "a storage without some peak of {n} leaves was loaded");
    if n == 0 {
        return Ok(());
    }
    let want = s.0.borrow().range(0, n);
    ensure_eq!(hex(&t.root()), hex(&want), "root of {n} leaves");
    s.0.borrow_mut().lost = lost.clone();
    let missing = absent(&needed);
    ctx.compared += 1;
    match t.prove(i) {
        Ok((root, proof)) => {
            let st = s.0.borrow();
            let mut p: Vec<B32> = path_ranges(n, i).iter().map(|(_, r)| st.range(r.0, r.1)).collect();
            p.push(st.range(i, i + 1));
            p.reverse();
            ensure!(root == want && proof == p, "wrong proof of {i} of {n} without {lost:?}");
            ctx.label_if(!lost.is_empty() && !missing, "proof that needs no lost record");
        }
        Err(MerkleTreeError::LoadError(_)) => {
            ensure!(missing, "proof of {i} of {n} failed but needs none of {lost:?}");
            ctx.nontrivial = true;
            ctx.label("proof refused");
        }
        Err(e) => return Err(format!("proof of {i} of {n}: {e:?}")),
    }
    Ok(())
}

pub fn b05() -> Property {
    Property {
        id: "B05",
        subs: vec![
            sub("losses", "trees of up to 300 leaves, a random set of records lost before or after loading at the same, an earlier or a larger count, then every proof (or a spread); non-trivial: a load or proof was refused", 400_000, 4_800_000, b05_gen, b05_check),
            enumerate("single", "each single record of each tree of 1, 2, 3, ... leaves lost, before and after the load, all proofs; non-trivial: a load or proof was refused", 10_000, 30_000, b05_single, b05_check),
            enumerate("counts", "each small storage loaded at every count up to 64 beyond it and at the largest counts; non-trivial: the load was refused", 4_000, 9_000, b05_count, b05_check),
            sub("huge", "trees of up to 2^63 - 1 leaves over a storage that computes its records and lost some of those around one proof, or holds fewer leaves than claimed; non-trivial: a load or proof was refused", 100_000, 1_200_000, huge_loss_gen, huge_loss_check),
        ],
    }
}

// ---------------------------------------------------------------- B06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FaultOp {
    Push(Data),
    Prove(Idx),
    Load(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B06 {
    base: u16,
    ops: Vec<FaultOp>,
    /// Leaf pushed instead of the failed one, in half of the continuations.
    other: Blob,
}

fn b06_gen() -> BoxedStrategy<B06> {
    let base = prop_oneof![
        4 => 0u16..20,
        2 => (1u16..8, 0u16..3).prop_map(|(k, d)| (1 << k) - d.min(1 << k)),
        1 => 20u16..140,
    ];
    let op = prop_oneof![
        6 => data().prop_map(FaultOp::Push),
        2 => idx().prop_map(FaultOp::Prove),
        1 => any::<u16>().prop_map(FaultOp::Load),
    ];
    (base, prop::collection::vec(op, 1..6), blob())
        .prop_map(|(base, ops, other)| B06 { base, ops, other })
        .boxed()
}

fn b06_world(c: &B06, upto: usize) -> Result<World, String> {
    let mut w = World::new(Handle::new());
    for i in 0..c.base {
        w.push(&i.to_be_bytes())?;
    }
    for op in &c.ops[..upto] {
        match op {
            FaultOp::Push(d) => {
                let b = w.resolve(d);
                w.push(&b)?;
            }
            FaultOp::Load(_) => w.tree = load(&w.h, w.model.len())?,
            FaultOp::Prove(_) => {}
        }
    }
    Ok(w)
}

pub const MODES: [(bool, bool); 4] = [(false, false), (true, false), (false, true), (true, true)];

fn reported<T: std::fmt::Debug>(
    r: Result<Result<T, MerkleTreeError<Boom>>, String>,
    what: &str,
) -> R {
    match r {
        Err(p) => Err(format!("{what}: {p}")),
        Ok(Ok(v)) => Err(format!("{what}: succeeded: {}", short(&v))),
        Ok(Err(e)) => {
            ensure!(
                matches!(e, MerkleTreeError::StorageError(_)),
                "{what}: reported as {e:?}, not as a storage error"
            );
            Ok(())
        }
    }
}

fn b06_check(c: &B06, ctx: &mut Ctx) -> R {
    for t in 0..c.ops.len() {
        for (m, &(after, repeat)) in MODES.iter().enumerate() {
            for at in 0.. {
                ensure!(at < 10_000, "an operation does not end");
                let mut w = b06_world(c, t)?;
                let n = w.model.len();
                let ctl = w.h.ctl.clone();
                let plan = Plan { at, after, repeat };
                let what = format!("op {t} {:?} with {n} leaves, {plan:?}", c.ops[t]);
                let fired;
                match &c.ops[t] {
                    FaultOp::Push(d) => {
                        let bytes = w.resolve(d);
                        ctl.arm(plan);
                        let r = guarded(|| w.tree.push(&bytes));
                        let again = repeat.then(|| guarded(|| w.tree.push(&bytes)));
                        fired = ctl.disarm();
                        if fired == 0 {
                            ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                            break;
                        }
                        if repeat && at > 0 {
                            ctx.label("failure part way through a push");
                        }
                        let first_failed = !matches!(&r, Ok(Ok(())));
                        if let Some(again) = again {
                            // The failure may only have struck the second attempt.
                            if !first_failed {
                                w.model_push(&bytes);
                            } else {
                                reported(r, &what)?;
                            }
                            reported(again, &format!("{what}, second attempt"))?;
                        } else {
                            reported(r, &what)?;
                        }
                        let n = w.model.len();
                        w.check_root(&what)?;
                        w.check_proofs(&what)?;
                        w.check_proof(n, &what)?;
                        let l = load(&w.h, n).map_err(|e| format!("{what}: then {e}"))?;
                        ensure_eq!(hex(&l.root()), hex(&w.model.root()), "{what}: reload");
                        drop(l);
                        // Push it again, or something else.
                        let next = match (at as usize + m) % 2 {
                            0 => bytes,
                            _ => c.other.bytes(),
                        };
                        if (at as usize + m / 2) % 3 == 2 {
                            w.tree = load(&w.h, n)?;
                        }
                        w.push(&next)?;
                        w.check_root(&what)?;
                        for i in 0..3u8 {
                            w.push(&[i])?;
                            w.check_root(&what)?;
                        }
                        w.check_proofs(&what)?;
                        let l = load(&w.h, n + 4)?;
                        ensure_eq!(hex(&l.root()), hex(&w.model.root()), "{what}: later reload");
                        for i in spread(n + 4) {
                            check_proof(&l, &w.model, i, &what)?;
                        }
                    }
                    FaultOp::Prove(i) => {
                        let i = i.resolve(n);
                        ctl.arm(plan);
                        let r = guarded(|| w.tree.prove(i));
                        fired = ctl.disarm();
                        w.check_proof(i, &what)?;
                        w.check_root(&what)?;
                        if fired == 0 {
                            break;
                        }
                        reported(r, &what)?;
                        w.push(b"next")?;
                        w.check_root(&what)?;
                        ctx.label("failed proof");
                    }
                    FaultOp::Load(k) => {
                        let k = *k as u64 % (n + 1);
                        let h = w.h.clone();
                        ctl.arm(plan);
                        let r = guarded(|| BTree::load(h, k).map(|_| ()));
                        fired = ctl.disarm();
                        let mut model = w.model.clone();
                        model.truncate(k);
                        let l = load(&w.h, k)?;
                        ensure_eq!(hex(&l.root()), hex(&model.root()), "{what}: load after failure");
                        if fired == 0 {
                            break;
                        }
                        reported(r, &what)?;
                        ctx.label("failed load");
                    }
                }
                ctx.compared += 1;
                ctx.nontrivial = true;
                ctx.label(match (after, repeat) {
                    (false, false) => "failed before taking effect",
                    (true, false) => "failed after taking effect",
                    _ => "kept failing",
                });
            }
        }
    }
    Ok(())
}

fn b06_size(i: u64) -> B06 {
    B06 {
        base: i as u16,
        ops: vec![
            FaultOp::Push(Data::Blob(Blob { len: 3, fill: Fill::Random(i as u32) })),
            FaultOp::Prove(Idx::In(i / 2)),
            FaultOp::Load(i as u16),
        ],
        other: Blob { len: 1, fill: Fill::Zero },
    }
}

/// A history during which several accesses fail, here and there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct B06Storm {
    base: u16,
    ops: Vec<StormOp>,
    strikes: Vec<Strike>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum StormOp {
    /// Pushed at most so many times, until it succeeds.
    Push(Data, u8),
    Prove(Idx),
    /// Go on with the tree loaded at the current count.
    Reload,
    /// Go on with the tree loaded at an earlier count.
    Rollback(u16),
}

fn b06_storm_gen() -> BoxedStrategy<B06Storm> {
    let base = prop_oneof![
        4 => 0u16..20,
        2 => (1u16..8, 0u16..3).prop_map(|(k, d)| (1 << k) - d.min(1 << k)),
        1 => 20u16..140,
    ];
    let op = prop_oneof![
        12 => (data(), 1u8..4).prop_map(|(d, t)| StormOp::Push(d, t)),
        3 => idx().prop_map(StormOp::Prove),
        2 => Just(StormOp::Reload),
        1 => any::<u16>().prop_map(StormOp::Rollback),
    ];
    let n = prop_oneof![3 => 1usize..10, 2 => 1usize..60];
    (base, n.prop_flat_map(move |n| prop::collection::vec(op.clone(), n)), strikes())
        .prop_map(|(base, ops, strikes)| B06Storm { base, ops, strikes })
        .boxed()
}

fn b06_storm_check(c: &B06Storm, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    for i in 0..c.base {
        w.push(&i.to_be_bytes())?;
    }
    let ctl = w.h.ctl.clone();
    ctl.storm(&c.strikes);
    let mut failures = 0;
    for (t, op) in c.ops.iter().enumerate() {
        let n = w.model.len();
        let what = format!("op {t} {op:?} with {n} leaves after {failures} failures");
        let attempts = if let StormOp::Push(_, k) = op { *k } else { 1 };
        for _ in 0..attempts {
            let before = ctl.fired();
            let failed = |ctx: &mut Ctx, l| {
                let f = ctl.fired() > before;
                ctx.label_if(f, l);
                f
            };
            let hurt = match op {
                StormOp::Push(d, _) => {
                    let bytes = w.resolve(d);
                    let r = guarded(|| w.tree.push(&bytes));
                    let f = failed(ctx, "failed push");
                    if f {
                        reported(r, &what)?;
                    } else {
                        ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                        w.model_push(&bytes);
                    }
                    f
                }
                StormOp::Prove(i) => {
                    let i = i.resolve(n);
                    let r = guarded(|| w.tree.prove(i));
                    let f = failed(ctx, "failed proof");
                    if f {
                        reported(r, &what)?;
                    } else {
                        let left = ctl.calm();
                        w.check_proof(i, &what)?;
                        ctl.resume(left);
                    }
                    f
                }
                StormOp::Reload | StormOp::Rollback(_) => {
                    let k = match op {
                        StormOp::Rollback(k) => *k as u64 % (n + 1),
                        _ => n,
                    };
                    let h = w.h.clone();
                    match guarded(|| BTree::load(h, k)) {
                        Ok(Ok(tree)) => {
                            ensure!(ctl.fired() == before, "{what}: a failure went unreported");
                            w.tree = tree;
                            w.model.truncate(k);
                            w.data.truncate(k as usize);
                            false
                        }
                        r if ctl.fired() > before => {
                            reported(r.map(|x| x.map(|_| ())), &what)?;
                            ctx.label("failed load");
                            true
                        }
                        Ok(Err(e)) => return Err(format!("{what}: {e:?}")),
                        Err(p) => return Err(format!("{what}: {p}")),
                    }
                }
            };
            failures += hurt as u32;
            w.check_root(&what)?;
            ctx.compared += 1;
            if hurt {
                let left = ctl.calm();
                let n = w.model.len();
                let l = load(&w.h, n).map_err(|e| format!("{what}: then {e}"))?;
                ensure_eq!(hex(&l.root()), hex(&w.model.root()), "{what}: reload");
                for i in spread(n) {
                    w.check_proof(i, &what)?;
                }
                ctl.resume(left);
            } else {
                break;
            }
        }
    }
    ctl.calm();
    let what = format!("after {failures} failures");
    w.check_proofs(&what)?;
    let n = w.model.len();
    for i in 0..2u8 {
        w.push(&[i])?;
        w.check_root(&what)?;
    }
    for k in [n + 2, n, n / 2] {
        let mut model = w.model.clone();
        model.truncate(k);
        let l = load(&w.h, k)?;
        ensure_eq!(hex(&l.root()), hex(&model.root()), "{what}: load at {k} of {}", n + 2);
        for i in spread(k) {
            check_proof(&l, &model, i, &what)?;
        }
    }
    ctx.nontrivial = failures > 0;
    ctx.label_if(failures > 1, "several failures");
    ctx.label_if(failures > 5, "more than five failures");
    Ok(())
}

pub fn b06() -> Property {
    Property {
        id: "B06",
        subs: vec![
            sub("faults", "for each operation (push, proof, load) of a random history, every storage access of it is made to fail in turn, before or after taking effect, once or from then on; then the tree is checked, the operation repeated or replaced, and the tree grown and reloaded; non-trivial: an access failed", 12_000, 140_000, b06_gen, b06_check),
            enumerate("sizes", "the same for the push, a proof and a load at n = 0, 1, 2, ... leaves", 300, 1_100, b06_size, b06_check),
            sub("storm", "a random history of pushes, repeated ones, proofs, reloads and rollbacks during which up to 11 bursts of accesses fail; after every operation the root, after every failure a reload and proofs too, at the end all proofs and loads at several counts; non-trivial: an operation failed", 60_000, 700_000, b06_storm_gen, b06_storm_check),
        ],
    }
}

// ---------------------------------------------------------------- B07

/// A storage that computes the records of a tree of `n` leaves, and keeps what is written.
#[derive(Clone)]
struct Virtual(Rc<RefCell<VState>>);

struct VState {
    n: u64,
    seed: u32,
    reads: BTreeSet<u64>,
    written: BTreeMap<u64, (u64, B32)>,
    lost: BTreeSet<u64>,
}

impl VState {
    fn computed(&self, key: u64) -> Option<(u64, B32)> {
        let (h, o) = coordinates(key);
        if h >= 63 || (o as u128 + 1) << h > self.n as u128 {
            return None;
        }
        Some((key, sha(&[b"virtual", &self.seed.to_be_bytes(), &key.to_be_bytes()])))
    }
    fn record(&self, key: u64) -> Option<(u64, B32)> {
        self.written.get(&key).copied().or_else(|| self.computed(key))
    }
    /// What a look-up finds.
    fn stored(&self, key: u64) -> Option<(u64, B32)> {
        self.record(key).filter(|_| !self.lost.contains(&key))
    }
    /// Hash of the leaves [a, b) of a tree whose complete subtrees are stored.
    fn range(&self, a: u64, b: u64) -> B32 {
        let n = b - a;
        if n.is_power_of_two() && a % n == 0 {
            let p = position(n.trailing_zeros(), a / n) as u64;
            return self.record(p).expect("complete subtree").1;
        }
        let m = a + split(n);
        node_hash(&self.range(a, m), &self.range(m, b))
    }
}

impl StorageInspect<BTbl> for Virtual {
    type Error = Boom;
    fn get(&self, key: &u64) -> Result<Option<Cow<'_, (u64, B32)>>, Boom> {
        let mut s = self.0.borrow_mut();
        s.reads.insert(*key);
        Ok(s.stored(*key).map(Cow::Owned))
    }
    fn contains_key(&self, key: &u64) -> Result<bool, Boom> {
        let mut s = self.0.borrow_mut();
        s.reads.insert(*key);
        Ok(s.stored(*key).is_some())
    }
}

impl StorageMutate<BTbl> for Virtual {
    fn insert(&mut self, key: &u64, v: &(u64, B32)) -> Result<Option<(u64, B32)>, Boom> {
        let mut s = self.0.borrow_mut();
        let old = s.record(*key);
        s.written.insert(*key, *v);
        Ok(old)
    }
    fn remove(&mut self, _: &u64) -> Result<Option<(u64, B32)>, Boom> {
        panic!("a push removed a record")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B07 {
    n: u64,
    seed: u32,
    idx: Vec<Idx>,
    pushes: u8,
    reload: bool,
}

const MAX_LEAVES: u64 = (1 << 63) - 1;

pub fn leaf_counts() -> BoxedStrategy<u64> {
    let near_pow = (1u32..=63, -4i64..5).prop_map(|(k, d)| ((1u64 << k) as i128 + d as i128) as u64);
    let dense = (1u32..=62, 0u32..=62)
        .prop_map(|(a, b)| ((1u64 << a.max(b)) - 1) & !((1u64 << a.min(b)) - 1) | 1);
    prop_oneof![
        4 => wide_u64(),
        3 => near_pow,
        2 => dense,
        1 => (0u64..5).prop_map(|d| MAX_LEAVES - d),
        1 => 0u64..300,
    ]
    .prop_map(|n| n.min(MAX_LEAVES))
    .boxed()
}

fn b07_gen() -> BoxedStrategy<B07> {
    (leaf_counts(), any::<u32>(), prop::collection::vec(idx(), 1..8), 0u8..10, any::<bool>())
        .prop_map(|(n, seed, idx, pushes, reload)| B07 { n, seed, idx, pushes, reload })
        .boxed()
}

type VTree = binary::MerkleTree<BTbl, Virtual>;

fn b07_read(t: &VTree, s: &Virtual, n: u64, idx: &[u64], ctx: &mut Ctx) -> R {
    let want = if n == 0 { empty_hash() } else { s.0.borrow().range(0, n) };
    ensure_eq!(hex(&t.root()), hex(&want), "root of {n} leaves");
    for &i in idx {
        let r = t.prove(i);
        ctx.compared += 1;
        match r {
            Ok((root, proof)) => {
                ensure!(i < n, "a proof for index {i} of {n}");
                ensure_eq!(hex(&root), hex(&want), "proven root of {n} leaves");
                let s = s.0.borrow();
                let mut p: Vec<B32> =
                    path_ranges(n, i).iter().map(|(_, r)| s.range(r.0, r.1)).collect();
                p.push(s.range(i, i + 1));
                p.reverse();
                ensure!(proof == p, "proof of {i} of {n}: got {}, expected {}",
                    short(&proof.iter().map(|b| hex(&b[..4])).collect::<Vec<_>>()),
                    short(&p.iter().map(|b| hex(&b[..4])).collect::<Vec<_>>()));
            }
            Err(MerkleTreeError::InvalidProofIndex(_)) => {
                ensure!(i >= n, "index {i} of {n} refused")
            }
            Err(e) => return Err(format!("proof of {i} of {n}: {e:?}")),
        }
    }
    Ok(())
}

fn b07_check(c: &B07, ctx: &mut Ctx) -> R {
    virtual_check(c, true, ctx)
}

/// The same without looking at which records a load reads.
fn b07_lax(c: &B07, ctx: &mut Ctx) -> R {
    virtual_check(c, false, ctx)
}

fn virtual_check(c: &B07, reads: bool, ctx: &mut Ctx) -> R {
    let s = Virtual(Rc::new(RefCell::new(VState {
        n: c.n,
        seed: c.seed,
        reads: BTreeSet::new(),
        written: BTreeMap::new(),
        lost: BTreeSet::new(),
    })));
    let load = |n: u64| -> Result<VTree, String> {
        s.0.borrow_mut().reads.clear();
        let t = VTree::load(s.clone(), n).map_err(|e| format!("load of {n} leaves: {e:?}"))?;
        let want: BTreeSet<u64> = peaks(n).iter().map(|&(h, o)| position(h, o) as u64).collect();
        let got = s.0.borrow().reads.clone();
        ensure!(!reads || got == want, "load of {n} leaves read {got:?}, the peaks are {want:?}");
        Ok(t)
    };
    let mut n = c.n;
    let mut t = load(n)?;
    let mut idx: Vec<u64> = c.idx.iter().map(|i| i.resolve(n)).collect();
    if n > 0 {
        idx.extend(spread(n));
    }
    idx.extend([n, n + 1]);
    b07_read(&t, &s, n, &idx, ctx)?;
    for p in 0..c.pushes {
        if n >= MAX_LEAVES {
            ctx.label("at the largest count");
            break;
        }
        let bytes = [p, 1, 2];
        let mut want = BTreeMap::new();
        let mut hash = leaf_hash(&bytes);
        want.insert(2 * n, (2 * n, hash));
        let mut h = 0;
        while n >> h & 1 == 1 {
            let o = n >> h;
            let left = s.0.borrow().record(position(h, o - 1) as u64).expect("left sibling").1;
            hash = node_hash(&left, &hash);
            h += 1;
            let pos = position(h, o >> 1) as u64;
            want.insert(pos, (pos, hash));
        }
        let before = s.0.borrow().written.clone();
        if let Err(e) = t.push(&bytes) {
            return Err(format!("push at {n} leaves: {e:?}"));
        }
        let got: BTreeMap<_, _> = s
            .0
            .borrow()
            .written
            .iter()
            .filter(|(k, v)| before.get(k) != Some(v))
            .map(|(k, v)| (*k, *v))
            .collect();
        records_eq(&got, &want, &format!("records written by the push at {n} leaves"))?;
        ctx.compared += 1;
        n += 1;
        if c.reload {
            t = load(n)?;
            ctx.label("reload after a push");
        }
        let mut idx = vec![n - 1, n / 2, n];
        idx.extend(c.idx.iter().take(2).map(|i| i.resolve(n)));
        b07_read(&t, &s, n, &idx, ctx)?;
        ctx.label("pushes");
    }
    ctx.label_if(n >= 1 << 32, "over 2^32 leaves");
    ctx.label_if(n >= 1 << 62, "over 2^62 leaves");
    ctx.label_if(n.count_ones() >= 20, "20 or more peaks");
    ctx.nontrivial_if(n > 1 << 16);
    Ok(())
}

fn b07_pow(i: u64) -> B07 {
    let k = i / 8 % 63 + 1;
    let d = i % 8;
    let n = ((1u128 << k) + d as u128).saturating_sub(4).min(MAX_LEAVES as u128) as u64;
    B07 { n, seed: i as u32, idx: vec![Idx::In(i), Idx::In(u64::MAX / 3), Idx::FromMax(0)], pushes: 9, reload: i % 3 == 0 }
}

pub fn b07() -> Property {
    Property {
        id: "B07",
        subs: vec![
            sub("huge", "leaf counts of every magnitude up to 2^63 - 1 over a storage that computes its records: keys read by load, root, proofs (inside and outside the tree), pushes and reloads; non-trivial: over 2^16 leaves", 120_000, 1_500_000, b07_gen, b07_check),
            enumerate("powers", "leaf counts 2^k - 4 .. 2^k + 3 for every k up to 63, with nine pushes across the boundary; non-trivial: over 2^16 leaves", 504, 504, b07_pow, b07_check),
        ],
    }
}
