//! S01-S07: the sparse Merkle tree.

use crate::engine::{enumerate, guarded, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::props::binary::{length_case, Length, MODES};
use crate::store::*;
use crate::{ensure, ensure_eq, text_of};
use fuel_merkle::common::StorageMap;
use fuel_merkle::sparse::{self, in_memory, MerkleTreeError};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type STbl = Tbl<B32, Rec>;
pub type SHandle = Handle<B32, Rec>;
pub type STree = sparse::MerkleTree<STbl, SHandle>;
type MapTree = sparse::MerkleTree<in_memory::NodesTable, StorageMap<in_memory::NodesTable>>;

/// An operation on the key numbered by the first field, modulo the pool.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Update(u8, Val),
    Delete(u8),
    /// Update with empty data.
    Empty(u8),
    Reload,
}

/// Few distinct values, so that overwrites with equal data occur; some arbitrary.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Small(u8),
    Blob(Blob),
    /// The key itself.
    Key,
}

impl Val {
    pub fn bytes(&self, key: &B32) -> Vec<u8> {
        match self {
            Val::Small(n) => format!("value {}", n % 4).into_bytes(),
            Val::Blob(b) => b.bytes(),
            Val::Key => key.to_vec(),
        }
    }
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        5 => (0u8..4).prop_map(Val::Small),
        3 => blob().prop_map(Val::Blob),
        1 => Just(Val::Key),
    ]
    .boxed()
}

pub fn sop() -> BoxedStrategy<SOp> {
    prop_oneof![
        8 => (any::<u8>(), val()).prop_map(|(k, v)| SOp::Update(k, v)),
        5 => any::<u8>().prop_map(SOp::Delete),
        1 => any::<u8>().prop_map(SOp::Empty),
        1 => Just(SOp::Reload),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub keys: Vec<KeySpec>,
    /// Operations of another tree that left its records in the storage.
    #[serde(default)]
    pub dirty: Vec<SOp>,
    pub ops: Vec<SOp>,
}

impl Hist {
    /// The storage the history starts from.
    pub fn storage(&self, keys: &[B32], ctx: &mut Ctx) -> Result<SHandle, String> {
        let mut w = World::new(Handle::new());
        for op in &self.dirty {
            w.apply(op, keys)?;
        }
        ctx.label_if(!self.dirty.is_empty(), "storage used before");
        Ok(w.h.fork())
    }
}

fn hist(max_keys: usize, max_ops: usize) -> BoxedStrategy<Hist> {
    let ops = prop_oneof![
        3 => prop::collection::vec(sop(), 0..max_ops),
        // Build, then take down.
        1 => (
            prop::collection::vec((any::<u8>(), val()).prop_map(|(k, v)| SOp::Update(k, v)), 1..max_ops),
            prop::collection::vec(prop_oneof![9 => any::<u8>().prop_map(SOp::Delete), 1 => sop()], 1..max_ops),
        ).prop_map(|(mut a, b)| { a.extend(b); a }),
    ];
    let dirty = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(sop(), 1..16)];
    (key_pool(max_keys), dirty, ops)
        .prop_map(|(keys, dirty, ops)| Hist { keys, dirty, ops })
        .boxed()
}

pub fn small_hist() -> BoxedStrategy<Hist> {
    hist(12, 24)
}

fn wide_hist() -> BoxedStrategy<Hist> {
    hist(40, 80)
}

pub struct World {
    pub h: SHandle,
    pub tree: STree,
    pub model: RefSparse,
}

impl World {
    pub fn new(h: SHandle) -> Self {
        World { tree: STree::new(h.clone()), h, model: RefSparse::default() }
    }

    /// Applies an operation to tree and model.
    pub fn apply(&mut self, op: &SOp, keys: &[B32]) -> R {
        let (key, data) = match resolve(op, keys) {
            None => return self.reload(),
            Some(x) => x,
        };
        self.act(&key, data.as_deref())
    }

    /// Update, or delete if there is no data.
    pub fn act(&mut self, key: &B32, data: Option<&[u8]>) -> R {
        let r = act(&mut self.tree, key, data);
        if let Err(e) = r {
            return Err(format!("{} of {} failed: {e:?}", verb(data), hex(key)));
        }
        self.model.update(key, data.unwrap_or_default());
        Ok(())
    }

    pub fn reload(&mut self) -> R {
        let root = self.tree.root();
        self.tree = STree::load(self.h.clone(), &root)
            .map_err(|e| format!("load of root {} of {} entries failed: {e:?}", hex(&root), self.model.map.len()))?;
        Ok(())
    }

    pub fn check_root(&self, what: &str) -> R {
        ensure_eq!(
            hex(&self.tree.root()),
            hex(&self.model.root()),
            "{what}: root of {} entries",
            self.model.map.len()
        );
        Ok(())
    }
}

fn verb(data: Option<&[u8]>) -> &'static str {
    match data {
        None => "delete",
        Some([]) => "empty update",
        _ => "update",
    }
}

/// Key and data of an operation; `None` for a reload, no data for a delete.
pub fn resolve(op: &SOp, keys: &[B32]) -> Option<(B32, Option<Vec<u8>>)> {
    let key = |k: &u8| keys[*k as usize % keys.len()];
    Some(match op {
        SOp::Update(k, v) => (key(k), Some(v.bytes(&key(k)))),
        SOp::Delete(k) => (key(k), None),
        SOp::Empty(k) => (key(k), Some(vec![])),
        SOp::Reload => return None,
    })
}

pub fn act(tree: &mut STree, key: &B32, data: Option<&[u8]>) -> Result<(), MerkleTreeError<Boom>> {
    match data {
        Some(d) => tree.update(key, d),
        None => tree.delete(key),
    }
}

/// Whether the operation changes the map.
fn changes(model: &RefSparse, key: &B32, data: Option<&[u8]>) -> bool {
    match data {
        None | Some([]) => model.map.contains_key(key),
        Some(d) => model.map.get(key) != Some(&sha(&[d])),
    }
}

fn classify(ctx: &mut Ctx, model: &RefSparse, key: &B32, data: Option<&[u8]>) {
    let present = model.map.contains_key(key);
    match data {
        None | Some([]) => {
            ctx.label(if present { "delete of a present key" } else { "delete of an absent key" });
            ctx.label_if(present && model.map.len() == 1, "delete of the last key");
        }
        Some(_) if present => {
            ctx.label(if changes(model, key, data) { "overwrite" } else { "same update again" })
        }
        Some(_) => {
            let near = model.map.keys().map(|k| common_prefix(k, key)).max().unwrap_or(0);
            ctx.label_if(near > 24, "insert sharing over 24 bits");
            ctx.label_if(near > 200, "insert sharing over 200 bits");
        }
    }
}

/// Walks the storage from the root; every record must be that of the model's tree.
pub fn check_storage(h: &SHandle, model: &RefSparse, what: &str) -> R {
    let map = h.map.borrow();
    for (hash, rec) in model.records() {
        match map.get(&hash) {
            None => return Err(format!("{what}: record {} (height {}, kind {}) is missing", hex(&hash), rec.0, rec.1)),
            Some(r) => ensure!(*r == rec, "{what}: record {} is {r:?}, expected {rec:?}", hex(&hash)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S01

fn s01_check(c: &Hist, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let mut w = World::new(c.storage(&keys, ctx)?);
    let mut map = MapTree::new(StorageMap::new());
    let mut mem = in_memory::MerkleTree::new();
    let mut roots: BTreeMap<B32, BTreeMap<B32, B32>> = BTreeMap::new();
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {i}");
        if let Some((key, data)) = resolve(op, &keys) {
            classify(ctx, &w.model, &key, data.as_deref());
            let r = match &data {
                Some(d) => map.update(&key, d),
                None => map.delete(&key),
            };
            ensure!(r.is_ok(), "{what}: storage map tree failed: {r:?}");
            match &data {
                Some(d) => mem.update(&key, d),
                None => mem.delete(&key),
            }
            let same = !changes(&w.model, &key, data.as_deref());
            let before = w.tree.root();
            w.act(&key, data.as_deref())?;
            ensure!(!same || w.tree.root() == before, "{what}: root changed though the map did not");
        }
        let want = w.model.root();
        ensure_eq!(hex(&w.tree.root()), hex(&want), "{what}, {} entries: root", w.model.map.len());
        ensure_eq!(hex(&map.root()), hex(&want), "{what}, {} entries: storage map root", w.model.map.len());
        ensure_eq!(hex(&mem.root()), hex(&want), "{what}, {} entries: in-memory root", w.model.map.len());
        if let Some(old) = roots.insert(want, w.model.map.clone()) {
            ensure!(old == w.model.map, "{what}: two maps share the root {}", hex(&want));
        }
        ctx.compared += 3;
        ctx.nontrivial_if(w.model.map.len() >= 2);
    }
    ctx.label_if(w.model.map.len() >= 10, "10 or more entries at the end");
    Ok(())
}

/// The same map reached in two ways.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Orders {
    keys: Vec<KeySpec>,
    vals: Vec<Val>,
    /// Sort keys of the second order.
    order: Vec<u16>,
    /// Keys inserted and deleted again on the way, by pool number.
    noise: Vec<(u16, u8, KeySpec)>,
}

fn orders_gen() -> BoxedStrategy<Orders> {
    (
        key_pool(14),
        prop::collection::vec(val(), 14),
        prop::collection::vec(any::<u16>(), 14),
        prop::collection::vec((any::<u16>(), any::<u8>(), key_spec()), 0..8),
    )
        .prop_map(|(keys, vals, order, noise)| Orders { keys, vals, order, noise })
        .boxed()
}

fn orders_check(c: &Orders, ctx: &mut Ctx) -> R {
    let mut specs = c.keys.clone();
    specs.extend(c.noise.iter().map(|n| n.2.clone()));
    let all = resolve_keys(&specs);
    let (keys, extra) = all.split_at(c.keys.len());
    let mut entries: BTreeMap<B32, Vec<u8>> = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        let v = c.vals[i % c.vals.len()].bytes(k);
        if !v.is_empty() {
            entries.insert(*k, v);
        }
    }
    let mut a = World::new(Handle::new());
    for (k, v) in &entries {
        a.act(k, Some(v))?;
    }
    let mut b = World::new(Handle::new());
    let mut order: Vec<_> = entries.iter().enumerate().collect();
    order.sort_by_key(|(i, _)| c.order.get(*i).copied().unwrap_or(0));
    let noise: Vec<(usize, usize, B32)> = c
        .noise
        .iter()
        .zip(extra)
        .filter(|(_, k)| !entries.contains_key(*k))
        .map(|(n, k)| (n.0 as usize % (order.len() + 1), n.1 as usize % (order.len() + 1), *k))
        .collect();
    for step in 0..=order.len() {
        for (at, until, k) in &noise {
            if *at == step {
                b.act(k, Some(b"noise"))?;
                ctx.label("keys inserted and deleted on the way");
            }
            if *until == step {
                b.act(k, None)?;
            }
        }
        if let Some((_, (k, v))) = order.get(step) {
            b.act(k, Some(v))?;
        }
    }
    for (_, _, k) in &noise {
        b.act(k, None)?;
    }
    ensure!(a.model.map == b.model.map, "harness: the maps differ");
    ensure_eq!(hex(&b.tree.root()), hex(&a.tree.root()), "root of the same map built in another order");
    a.check_root("sorted order")?;
    ctx.compared += 2;
    ctx.nontrivial_if(entries.len() >= 3);
    Ok(())
}

/// Larger trees, the oracle computed at a stride.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    kind: u8,
    n: u16,
    ops: u16,
    seed: u32,
}

fn bulk_key(kind: u8, i: u32) -> B32 {
    match kind % 4 {
        0 => sha(&[&i.to_be_bytes()]),
        1 => {
            let mut k = [0; 32];
            k[28..].copy_from_slice(&i.to_be_bytes());
            k
        }
        2 => {
            let mut k = sha(&[&(i % 7).to_be_bytes()]);
            k[29..].copy_from_slice(&i.to_be_bytes()[1..]);
            k
        }
        _ => {
            let mut k = [0xff; 32];
            k[..4].copy_from_slice(&i.reverse_bits().to_be_bytes());
            k
        }
    }
}

fn bulk_check(c: &Bulk, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let rnd = expand(c.seed, c.ops as usize * 5);
    for (i, r) in rnd.chunks(5).enumerate() {
        let k = u32::from_be_bytes([0, r[0], r[1], r[2]]) % c.n.max(1) as u32;
        let key = bulk_key(c.kind, k);
        // Mostly inserts in the first half, mostly deletes in the second.
        let delete = if i * 2 < c.ops as usize { r[3] < 40 } else { r[3] < 170 };
        if delete {
            w.act(&key, None)?;
        } else {
            w.act(&key, Some(&[r[4] % 3, 1]))?;
        }
        if i % 41 == 0 || i < 20 {
            w.check_root("bulk")?;
            ctx.compared += 1;
        }
        if i % 331 == 330 {
            w.reload()?;
            check_storage(&w.h, &w.model, "bulk")?;
        }
    }
    w.check_root("bulk")?;
    check_storage(&w.h, &w.model, "bulk")?;
    ctx.label_if(w.model.map.len() > 100, "over 100 entries at the end");
    ctx.nontrivial_if(c.n > 2 && c.ops > 10);
    let left: Vec<B32> = w.model.map.keys().copied().collect();
    for k in left {
        w.act(&k, None)?;
    }
    ensure!(w.tree.root() == ZERO, "the emptied tree has root {}", hex(&w.tree.root()));
    Ok(())
}

fn bulk_gen() -> BoxedStrategy<Bulk> {
    (any::<u8>(), 1u16..1500, 1u16..2500, any::<u32>())
        .prop_map(|(kind, n, ops, seed)| Bulk { kind, n, ops, seed })
        .boxed()
}

/// Two or three keys splitting at every depth, inserted and deleted in every order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Split {
    bit: u8,
    third: u8,
    base: Fill,
    variant: u8,
}

fn split_case(i: u64) -> Split {
    let bit = (i % 256) as u8;
    let v = i / 256;
    let base = [Fill::Zero, Fill::Ones, Fill::Random(7), Fill::Const(0xaa), Fill::Random(i as u32)][v as usize % 5].clone();
    let third = [bit.wrapping_add(1), bit.wrapping_sub(1), 0, 255, bit ^ 128, bit][(v / 5) as usize % 6];
    Split { bit, third, base, variant: (v / 30) as u8 }
}

fn split_check(c: &Split, ctx: &mut Ctx) -> R {
    let a: B32 = c.base.bytes(32).try_into().unwrap();
    let b = near(&a, c.bit as usize, &[Rest::Keep, Rest::Zero, Rest::Ones, Rest::Random(3)][c.variant as usize % 4]);
    let third_base = if c.variant & 4 == 0 { a } else { b };
    let d = near(&third_base, c.third as usize, &Rest::Keep);
    let keys = [a, b, d];
    for perm in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for del in [[0, 1, 2], [2, 1, 0], [1, 0, 2]] {
            let mut w = World::new(Handle::new());
            for i in perm {
                w.act(&keys[i], Some(&[i as u8, 9]))?;
                w.check_root("split")?;
            }
            // Overwrite one, then take all down.
            w.act(&keys[del[1]], Some(b"new"))?;
            w.check_root("split")?;
            for i in del {
                w.act(&keys[i], None)?;
                w.check_root("split")?;
                check_storage(&w.h, &w.model, "split")?;
                ctx.compared += 1;
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Data of one length and slight variations of it, under the keys of a small tree.
fn length_check(c: &Length, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let keys: Vec<B32> = (0..6).map(|i| bulk_key(c.seed as u8, i)).collect();
    for (k, data) in keys.iter().zip(variants(c.len, c.seed)) {
        w.act(k, Some(&data))?;
        w.check_root(&format!("data of {} bytes", data.len()))?;
        ctx.compared += 1;
    }
    // The same contents the other way round.
    for (k, data) in keys.iter().rev().zip(variants(c.len, c.seed)) {
        w.act(k, Some(&data))?;
        w.check_root(&format!("data of {} bytes", data.len()))?;
        ctx.compared += 1;
    }
    ctx.nontrivial = c.len > 0;
    ctx.label_if(c.len > 1 << 16, "over 65536 bytes");
    Ok(())
}

/// A long history over a large map, the root compared after every operation.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    kind: u8,
    keys: u32,
    ops: u32,
    seed: u32,
    /// Compare what deletes leave in storage.
    erase: bool,
}

fn long_check(c: &Long, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut trie = RefTrie::default();
    let rnd = expand(c.seed, 4096);
    let mut x = u64::from_be_bytes(rnd[..8].try_into().unwrap()) | 1;
    for i in 0..c.ops {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = x >> 33;
        let key = bulk_key(c.kind, (r % c.keys as u64) as u32);
        // Inserts for two thirds, then mostly deletes.
        let delete = (x >> 20) % 8 < if i * 3 < c.ops * 2 { 1 } else { 6 };
        let data = [(i % 251) as u8, 1];
        let data: &[u8] = if !delete {
            &data
        } else {
            &[]
        };
        let path = if delete && c.erase { trie.path(&key) } else { vec![] };
        let present = w.model.map.contains_key(&key);
        w.act(&key, if delete && i % 2 == 0 { None } else { Some(data) })?;
        trie.update(&key, data);
        ensure_eq!(hex(&w.tree.root()), hex(&trie.hash()), "operation {i}: root of {} entries", w.model.map.len());
        ctx.compared += 1;
        if present {
            let map = w.h.map.borrow();
            for h in &path {
                ensure!(!map.contains_key(h), "operation {i}: path node {} was left in storage", hex(h));
            }
            ctx.compared += path.len() as u64;
        }
        if i % 5003 == 5002 {
            w.reload()?;
            check_storage(&w.h, &w.model, "long")?;
        }
        ctx.label_if(w.model.map.len() > 10_000, "over 10000 entries");
    }
    ensure_eq!(hex(&trie.hash()), hex(&w.model.root()), "harness: the two models");
    check_storage(&w.h, &w.model, "long")?;
    ctx.nontrivial = c.ops > 2;
    Ok(())
}

fn long_case(i: u64) -> Long {
    let (kind, keys, ops) = [
        (0u8, 40_000, 60_000),
        (3, 30_000, 40_000),
        (1, 3_000, 6_000),
        (2, 3_000, 6_000),
        (0, 500, 20_000),
        (0, 300_000, 250_000),
        (3, 300_000, 250_000),
        (1, 60_000, 60_000),
    ][i as usize % 8];
    Long { kind, keys, ops, seed: i as u32, erase: false }
}

fn long_erase(i: u64) -> Long {
    Long { erase: true, ..long_case(i) }
}

pub fn s01() -> Property {
    Property {
        id: "S01",
        subs: vec![
            sub("histories", "random histories of updates, overwrites, deletes, empty updates and reloads over key pools with chosen shared prefixes; three trees compared with the compact sparse Merkle tree of the map after every operation; non-trivial: at least 2 entries at some point", 20_000, 240_000, small_hist, s01_check),
            sub("wide", "the same with up to 40 keys and 160 operations", 1_500, 18_000, wide_hist, s01_check),
            sub("orders", "one map built in two orders, with other keys inserted and deleted on the way; non-trivial: at least 3 entries", 15_000, 180_000, orders_gen, orders_check),
            sub("bulk", "up to 2500 operations over up to 1500 keys (hashed, counters, clustered), the model compared at a stride, then emptied; non-trivial: more than 2 keys and 10 operations", 60, 700, bulk_gen, bulk_check),
            enumerate("long", "6 000 to 250 000 operations over maps of up to 100 000 entries, the root compared with an incrementally kept model after every operation; always non-trivial", 5, 8, long_case, long_check),
            enumerate("lengths", "data of every length up to 1100 and around powers of two up to 16 MiB, with others that differ from them in one byte or in length; non-trivial: not empty", LENGTHS, ALL_LENGTHS, length_case, length_check),
            enumerate("splits", "three keys parting at every bit 0..=255, for five bases, in every order of insertion and three of deletion; every case non-trivial", 1_280, 20_480, split_case, split_check),
        ],
    }
}

// ---------------------------------------------------------------- S02

/// Where an adversarial key or value comes from.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Root,
    /// A root the tree had earlier.
    PastRoot(u16),
    /// The hash a stored record is stored under.
    Stored(u16),
    /// First or second half of a stored record's content.
    Half(u16, bool),
    /// The hash of a leaf of the current tree.
    LeafHash(u16),
    DataHash(u16),
    /// A key of the current tree.
    Present(u16),
    /// A key used before, present or not.
    Used(u16),
    /// The hash of a node the tree dropped.
    Dropped(u16),
    /// The hash the leaf (key, value) would have.
    FutureLeaf(u16),
    Zero,
    Ones,
    Any(KeySpec),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AKey {
    src: Src,
    /// Flip one bit of it.
    flip: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AVal {
    /// The bytes of another source.
    Of(Src),
    /// A serialised record of the storage, in the documented buffer format.
    Record(u16),
    /// The preimage of a record's hash.
    Preimage(u16),
    Blob(Blob),
    Small(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Update(AKey, AVal),
    Delete(AKey),
    Empty(AKey),
    Reload,
}

fn src() -> BoxedStrategy<Src> {
    let i = || any::<u16>();
    prop_oneof![
        3 => Just(Src::Root),
        2 => i().prop_map(Src::PastRoot),
        4 => i().prop_map(Src::Stored),
        3 => (i(), any::<bool>()).prop_map(|(i, b)| Src::Half(i, b)),
        4 => i().prop_map(Src::LeafHash),
        2 => i().prop_map(Src::DataHash),
        4 => i().prop_map(Src::Present),
        4 => i().prop_map(Src::Used),
        2 => i().prop_map(Src::Dropped),
        1 => i().prop_map(Src::FutureLeaf),
        1 => Just(Src::Zero),
        1 => Just(Src::Ones),
        3 => key_spec().prop_map(Src::Any),
    ]
    .boxed()
}

fn s02_gen() -> BoxedStrategy<Vec<AOp>> {
    let key = || {
        (src(), prop::option::weighted(0.1, any::<u8>())).prop_map(|(src, flip)| AKey { src, flip })
    };
    let value = prop_oneof![
        3 => src().prop_map(AVal::Of),
        2 => any::<u16>().prop_map(AVal::Record),
        2 => any::<u16>().prop_map(AVal::Preimage),
        1 => blob().prop_map(AVal::Blob),
        2 => (0u8..3).prop_map(AVal::Small),
    ];
    let op = prop_oneof![
        9 => (key(), value).prop_map(|(k, v)| AOp::Update(k, v)),
        5 => key().prop_map(AOp::Delete),
        1 => key().prop_map(AOp::Empty),
        2 => Just(AOp::Reload),
    ];
    prop::collection::vec(op, 1..30).boxed()
}

#[derive(Default)]
struct Past {
    roots: Vec<B32>,
    used: Vec<B32>,
    dropped: Vec<B32>,
}

fn pick<T: Copy>(v: &[T], i: u16) -> Option<T> {
    (!v.is_empty()).then(|| v[i as usize % v.len()])
}

fn source(s: &Src, w: &World, p: &Past) -> B32 {
    let stored = |i: u16| {
        let m = w.h.map.borrow();
        let n = m.len();
        (n > 0).then(|| m.iter().nth(i as usize % n).map(|(k, r)| (*k, *r)).unwrap())
    };
    let entry = |i: u16| {
        let n = w.model.map.len();
        (n > 0).then(|| w.model.map.iter().nth(i as usize % n).map(|(k, v)| (*k, *v)).unwrap())
    };
    let found = match s {
        Src::Root => Some(w.tree.root()),
        Src::PastRoot(i) => pick(&p.roots, *i),
        Src::Stored(i) => stored(*i).map(|x| x.0),
        Src::Half(i, lo) => stored(*i).map(|x| if *lo { x.1 .2 } else { x.1 .3 }),
        Src::LeafHash(i) => entry(*i).map(|(k, v)| rec_hash(&(0, 0, k, v))),
        Src::DataHash(i) => entry(*i).map(|x| x.1),
        Src::Present(i) => entry(*i).map(|x| x.0),
        Src::Used(i) => pick(&p.used, *i),
        Src::Dropped(i) => pick(&p.dropped, *i),
        Src::FutureLeaf(i) => entry(*i).map(|(k, _)| rec_hash(&(0, 0, k, sha(&[b"future"])))),
        Src::Zero => Some(ZERO),
        Src::Ones => Some([0xff; 32]),
        Src::Any(spec) => {
            Some(resolve_keys(&[KeySpec::Hashed(1), spec.clone()])[1])
        }
    };
    found.unwrap_or(ZERO)
}

fn s02_check(c: &Vec<AOp>, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut mem = in_memory::MerkleTree::default();
    let mut p = Past::default();
    let mut collisions = 0;
    for (i, op) in c.iter().enumerate() {
        let what = format!("after operation {i}");
        let key = |k: &AKey, w: &World, p: &Past| {
            let mut b = source(&k.src, w, p);
            if let Some(f) = k.flip {
                flip_bit(&mut b, f as usize);
            }
            b
        };
        let (key, data) = match op {
            AOp::Reload => {
                w.reload()?;
                w.check_root("reload")?;
                ctx.label("reload");
                continue;
            }
            AOp::Delete(k) => (key(k, &w, &p), None),
            AOp::Empty(k) => (key(k, &w, &p), Some(vec![])),
            AOp::Update(k, v) => {
                let k = key(k, &w, &p);
                let record = |i: u16| {
                    let m = w.h.map.borrow();
                    let n = m.len();
                    (n > 0).then(|| *m.values().nth(i as usize % n).unwrap())
                };
                let v = match v {
                    AVal::Of(s) => source(s, &w, &p).to_vec(),
                    AVal::Record(i) => record(*i)
                        .map(|r| [&r.0.to_be_bytes()[..], &[r.1], &r.2, &r.3].concat())
                        .unwrap_or(vec![1]),
                    AVal::Preimage(i) => {
                        record(*i).map(|r| [&[r.1][..], &r.2, &r.3].concat()).unwrap_or(vec![0])
                    }
                    AVal::Blob(b) => b.bytes(),
                    AVal::Small(n) => vec![*n],
                };
                (k, Some(v))
            }
        };
        let before = w.model.records();
        if w.h.map.borrow().contains_key(&key) {
            collisions += 1;
            ctx.label("key is the hash of a stored record");
        }
        ctx.label_if(key == ZERO, "zero key");
        ctx.label_if(p.roots.contains(&key), "key is a past root");
        classify(ctx, &w.model, &key, data.as_deref());
        w.act(&key, data.as_deref())?;
        match &data {
            Some(d) => mem.update(&key, d),
            None => mem.delete(&key),
        }
        w.check_root(&what)?;
        ensure_eq!(hex(&mem.root()), hex(&w.model.root()), "{what}: in-memory root");
        check_storage(&w.h, &w.model, &what)?;
        ctx.compared += 3;
        let after = w.model.records();
        p.dropped.extend(before.into_keys().filter(|h| !after.contains_key(h)));
        p.roots.push(w.tree.root());
        p.used.push(key);
    }
    // Every entry is still there and can be updated and removed.
    w.reload()?;
    let keys: Vec<B32> = w.model.map.keys().copied().collect();
    for k in &keys {
        w.act(k, Some(b"again"))?;
        w.check_root("updating what is left")?;
    }
    for k in &keys {
        w.act(k, None)?;
        w.check_root("deleting what is left")?;
    }
    ensure!(w.tree.root() == ZERO, "emptied tree");
    ctx.nontrivial_if(collisions > 0 && c.len() >= 3);
    Ok(())
}

/// Operations with data and keys whose hashes were chosen by search: see [`MINED`].
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp {
    /// One after the other under the same key, or the second one under a later key.
    Pair { key: u8, pair: u8, swap: bool, apart: bool },
    /// The leaves of two keys agree in part.
    Keys { pair: u8, swap: bool },
    One { key: u8, data: u8 },
    Small { key: u8, n: u8 },
    Delete(u8),
    Reload,
}

/// The keys of such histories: zero, ones, two beside them, then the counters.
fn mined_keys() -> Vec<B32> {
    let mut specs = vec![KeySpec::Fresh(Fill::Zero), KeySpec::Fresh(Fill::Ones)];
    specs.extend([(0, 7), (1, 200)].map(|(base, bit)| KeySpec::Near { base, bit, rest: Rest::Keep }));
    specs.extend(MINED_KEYS.map(KeySpec::Counter));
    resolve_keys(&specs)
}

fn mined_gen() -> BoxedStrategy<Vec<MOp>> {
    let key = || prop_oneof![2 => Just(0u8), 1 => 0u8..4, 1 => any::<u8>()];
    let op = prop_oneof![
        3 => (key(), any::<u8>(), any::<bool>(), any::<bool>())
            .prop_map(|(key, pair, swap, apart)| MOp::Pair { key, pair, swap, apart }),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(pair, swap)| MOp::Keys { pair, swap }),
        3 => (key(), any::<u8>()).prop_map(|(key, data)| MOp::One { key, data }),
        2 => (key(), 0u8..2).prop_map(|(key, n)| MOp::Small { key, n }),
        4 => key().prop_map(MOp::Delete),
        1 => Just(MOp::Reload),
    ];
    prop::collection::vec(op, 1..14).boxed()
}

fn mined_check(c: &Vec<MOp>, ctx: &mut Ctx) -> R {
    let keys = mined_keys();
    let mut w = World::new(Handle::new());
    let mut mem = in_memory::MerkleTree::new();
    let pairs = (MINED.len() - MINED_PAIRS) / 2;
    let key_pairs = (MINED_KEYS.len() - 3) / 2;
    let data = |i: usize| MINED[i].to_le_bytes().to_vec();
    for (i, op) in c.iter().enumerate() {
        let nth = |k: u8| keys[k as usize % keys.len()];
        let two = |first: usize, swap: bool| if swap { [first + 1, first] } else { [first, first + 1] };
        let acts: Vec<(B32, Option<Vec<u8>>)> = match op {
            MOp::Pair { key, pair, swap, apart } => {
                let [a, b] = two(MINED_PAIRS + *pair as usize % pairs * 2, *swap);
                vec![(nth(*key), Some(data(a))), (nth(key.wrapping_add(*apart as u8)), Some(data(b)))]
            }
            MOp::Keys { pair, swap } => {
                let v = Some(b"value 0".to_vec());
                two(4 + 3 + *pair as usize % key_pairs * 2, *swap).map(|k| (keys[k], v.clone())).to_vec()
            }
            MOp::One { key, data: d } => vec![(nth(*key), Some(data(*d as usize % MINED.len())))],
            MOp::Small { key, n } => vec![(nth(*key), Some(format!("value {n}").into_bytes()))],
            MOp::Delete(key) => vec![(nth(*key), None)],
            MOp::Reload => vec![],
        };
        if acts.is_empty() {
            w.reload()?;
            w.check_root(&format!("reload, operation {i}"))?;
        }
        for (key, data) in acts {
            let what = format!("operation {i}, {} of {}", verb(data.as_deref()), hex(&key));
            classify(ctx, &w.model, &key, data.as_deref());
            w.act(&key, data.as_deref())?;
            match &data {
                Some(d) => mem.update(&key, d),
                None => mem.delete(&key),
            }
            w.check_root(&what)?;
            ensure_eq!(hex(&mem.root()), hex(&w.model.root()), "{what}: in-memory root");
            check_storage(&w.h, &w.model, &what)?;
            ctx.compared += 3;
        }
        let root = w.tree.root();
        ctx.label_if(root != ZERO && (root[..4] == [0; 4] || root[28..] == [0; 4]), "root with four zero bytes");
    }
    w.reload()?;
    w.check_root("reload at the end")?;
    ctx.nontrivial_if(c.len() >= 2);
    Ok(())
}

pub fn s02() -> Property {
    Property {
        id: "S02",
        subs: vec![sub("mined", "histories with data and keys found by search, whose hashes (of data, leaves, roots of two leaves) begin or end with four zero bytes or agree in their first or last 8 bytes with that of others; after every operation as in adaptive; non-trivial: two operations or more", 12_000, 300_000, mined_gen, mined_check), sub("adaptive", "adaptive histories whose keys and data are the tree's present and past roots, record hashes and contents, leaf and data hashes, one bit off them, and serialised records; root, in-memory root and whole storage compared with the model after every operation, then every entry updated and deleted; non-trivial: some key was the hash of a stored record", 100_000, 1_000_000, s02_gen, s02_check)],
    }
}

// ---------------------------------------------------------------- S03

fn s03_check(c: &Hist, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let mut original = World::new(c.storage(&keys, ctx)?);
    let mut loads = 0;
    for (i, op) in c.ops.iter().enumerate() {
        // The same operation on the tree that was never reloaded and on one loaded just now
        // from a copy of its storage.
        let root = original.tree.root();
        let h = original.h.fork();
        let mut copy = World { tree: load(&h, &root)?, h, model: original.model.clone() };
        ensure_eq!(hex(&copy.tree.root()), hex(&root), "root of a load before operation {i}");
        loads += 1;
        original.apply(op, &keys)?;
        copy.apply(op, &keys)?;
        copy.check_root(&format!("operation {i} on a loaded tree"))?;
        original.check_root(&format!("operation {i}"))?;
        ensure!(
            copy.h.records() == original.h.records(),
            "operation {i} left another storage behind on a loaded tree"
        );
        ctx.compared += 3;
        ctx.label_if(original.model.map.is_empty(), "load of an emptied tree");
        ctx.nontrivial_if(original.model.map.len() >= 2);
        // Some later operations on the loaded tree.
        if i % 3 == 0 {
            for op in c.ops.iter().skip(i + 1).take(6) {
                if matches!(op, SOp::Delete(_)) {
                    ctx.label("deletes on a loaded tree");
                }
                copy.apply(op, &keys)?;
                copy.check_root(&format!("later operation on a tree loaded before operation {i}"))?;
            }
        }
    }
    let _ = loads;
    Ok(())
}

fn load(h: &SHandle, root: &B32) -> Result<STree, String> {
    STree::load(h.clone(), root).map_err(|e| format!("load of {} failed: {e:?}", hex(root)))
}

/// Loads of what is not a root.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadLoad {
    hist: Hist,
    kind: u8,
    root: BadRoot,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BadRoot {
    Any(Fill),
    Flip(u8),
    /// A key of the map.
    Key(u8),
    DataHash(u8),
    EmptyHash,
    Past(u8),
    /// The record at the root gets this kind byte.
    Kind(u8),
    /// The record at the root is lost.
    Lost,
}

pub fn bad_gen() -> BoxedStrategy<BadLoad> {
    let root = prop_oneof![
        2 => fill().prop_map(BadRoot::Any),
        2 => any::<u8>().prop_map(BadRoot::Flip),
        2 => any::<u8>().prop_map(BadRoot::Key),
        1 => any::<u8>().prop_map(BadRoot::DataHash),
        1 => Just(BadRoot::EmptyHash),
        1 => any::<u8>().prop_map(BadRoot::Past),
        3 => (2u8..=255).prop_map(BadRoot::Kind),
        2 => Just(BadRoot::Lost),
    ];
    (hist(8, 14), 0u8..2, root).prop_map(|(hist, kind, root)| BadLoad { hist, kind, root }).boxed()
}

fn bad_check(c: &BadLoad, ctx: &mut Ctx) -> R {
    bad_load(c, ctx, false)
}

/// With `named`, errors must also name the root, or the invalid kind byte.
pub fn bad_load(c: &BadLoad, ctx: &mut Ctx, named: bool) -> R {
    let keys = resolve_keys(&c.hist.keys);
    let mut w = World::new(Handle::new());
    let mut past = vec![];
    for op in &c.hist.ops {
        w.apply(op, &keys)?;
        past.push(w.tree.root());
    }
    let root = w.tree.root();
    let entry = |i: u8| {
        let n = w.model.map.len();
        (n > 0).then(|| w.model.map.iter().nth(i as usize % n).map(|(k, v)| (*k, *v)).unwrap())
    };
    let wanted = match &c.root {
        BadRoot::Any(f) => f.bytes(32).try_into().unwrap(),
        BadRoot::Flip(b) => {
            let mut r = root;
            flip_bit(&mut r, *b as usize);
            r
        }
        BadRoot::Key(i) => entry(*i).map(|e| e.0).unwrap_or([7; 32]),
        BadRoot::DataHash(i) => entry(*i).map(|e| e.1).unwrap_or([7; 32]),
        BadRoot::EmptyHash => empty_hash(),
        BadRoot::Past(i) => past.get(*i as usize % past.len().max(1)).copied().unwrap_or([7; 32]),
        BadRoot::Kind(k) => {
            if root != ZERO {
                w.h.map.borrow_mut().get_mut(&root).ok_or("no root record")?.1 = *k;
            }
            root
        }
        BadRoot::Lost => {
            w.h.map.borrow_mut().remove(&root);
            root
        }
    };
    let stored = w.h.map.borrow().get(&wanted).copied();
    let r = guarded(|| STree::load(w.h.clone(), &wanted).map(|t| t.root()));
    let r = r?;
    ctx.compared += 1;
    match (&r, stored) {
        (Ok(got), _) if wanted == ZERO => ensure!(*got == ZERO, "zero root loads as {}", hex(got)),
        (Err(MerkleTreeError::LoadError(name)), None) => {
            ensure!(
                !named || name.to_lowercase().contains(&hex(&wanted)),
                "load of {} refused naming {name}",
                hex(&wanted)
            );
            if let (true, Err(e)) = (named, &r) {
                text_says(text_of!(e), &format!("{e:?}"), |t| t.to_lowercase().contains(&hex(&wanted)))?;
            }
            ctx.nontrivial = true;
            ctx.label("unknown root refused");
        }
        (Err(MerkleTreeError::DeserializeError(e)), Some(rec)) if rec.1 > 1 => {
            let text = format!("{e:?}");
            ensure!(!named || numbers(&text).contains(&(rec.1 as u64)), "kind byte {} refused as {text}", rec.1);
            if let (true, Err(e)) = (named, &r) {
                text_says(text_of!(e), &text, |t| numbers(t).contains(&(rec.1 as u64)))?;
            }
            ctx.nontrivial = true;
            ctx.label("undecodable root refused");
        }
        (Ok(got), Some(rec)) if rec.1 <= 1 => {
            ensure_eq!(hex(got), hex(&wanted), "root of a load");
            ctx.label("a stored hash loads");
        }
        _ => {
            return Err(format!(
                "load of {} (stored: {stored:?}): {}",
                hex(&wanted),
                short(&r.map(|x| hex(&x)))
            ))
        }
    }
    Ok(())
}

pub fn s03() -> Property {
    Property {
        id: "S03",
        subs: vec![
            sub("histories", "before every operation of a random history the tree is loaded from a copy of its storage and the operation, and some later ones, done on both; roots and storages compared; non-trivial: at least 2 entries", 36_000, 400_000, small_hist, s03_check),
            sub("unknown", "loads of roots the storage does not hold (arbitrary, one bit off, keys, data hashes, past roots, lost) or whose record has an invalid kind byte; non-trivial: the load was refused", 60_000, 600_000, bad_gen, bad_check),
        ],
    }
}

// ---------------------------------------------------------------- S04

fn walk(
    map: &BTreeMap<B32, Rec>,
    hash: &B32,
    depth: u32,
    prefix: &mut Vec<bool>,
    entries: &mut BTreeMap<B32, B32>,
) -> R {
    if *hash == ZERO {
        return Ok(());
    }
    let Some(r) = map.get(hash) else {
        return Err(format!("no record for the node {} at depth {depth}", hex(hash)));
    };
    ensure!(rec_hash(r) == *hash, "record {r:?} is stored under {}", hex(hash));
    match r.1 {
        0 => {
            ensure!(r.0 == 0, "leaf {} has height {}", hex(hash), r.0);
            for (i, b) in prefix.iter().enumerate() {
                ensure!(get_bit(&r.2, i) == *b, "leaf of key {} lies on another key's path", hex(&r.2));
            }
            ensure!(entries.insert(r.2, r.3).is_none(), "key {} occurs twice", hex(&r.2));
        }
        1 => {
            ensure!(r.0 == 256 - depth, "node {} at depth {depth} has height {}", hex(hash), r.0);
            let before = entries.len();
            for (child, b) in [(r.2, false), (r.3, true)] {
                prefix.push(b);
                walk(map, &child, depth + 1, prefix, entries)?;
                prefix.pop();
            }
            ensure!(entries.len() >= before + 2, "node {} has fewer than two leaves below it", hex(hash));
        }
        k => return Err(format!("record {} has kind {k}", hex(hash))),
    }
    Ok(())
}

fn s04_check(c: &Hist, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let mut w = World::new(c.storage(&keys, ctx)?);
    for (i, op) in c.ops.iter().enumerate() {
        if let Some((k, d)) = resolve(op, &keys) {
            classify(ctx, &w.model, &k, d.as_deref());
        }
        w.apply(op, &keys)?;
        let mut entries = BTreeMap::new();
        let map = w.h.map.borrow();
        walk(&map, &w.tree.root(), 0, &mut Vec::new(), &mut entries)
            .map_err(|e| format!("after operation {i}: {e}"))?;
        ensure!(
            entries == w.model.map,
            "after operation {i}: the storage holds {} entries, the map {}",
            entries.len(),
            w.model.map.len()
        );
        drop(map);
        check_storage(&w.h, &w.model, &format!("after operation {i}"))?;
        ctx.compared += 1 + entries.len() as u64;
        ctx.nontrivial_if(entries.len() >= 2);
    }
    Ok(())
}

pub fn s04() -> Property {
    Property {
        id: "S04",
        subs: vec![
            sub("histories", "after every operation of a random history the storage is walked from the root: hashes, kinds, heights, paths and the resulting entries; non-trivial: at least 2 entries", 50_000, 500_000, small_hist, s04_check),
            sub("wide", "the same with up to 40 keys and 160 operations", 3_500, 35_000, wide_hist, s04_check),
            enumerate("splits", "three keys parting at every bit, in every order; every case non-trivial", 1_280, 20_480, split_case, split_check),
        ],
    }
}

// ---------------------------------------------------------------- S05

fn s05_check(c: &Hist, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let mut w = World::new(c.storage(&keys, ctx)?);
    for (i, op) in c.ops.iter().enumerate() {
        let before = w.h.records();
        let Some((key, data)) = resolve(op, &keys) else {
            w.reload()?;
            ensure!(w.h.records() == before, "a load changed the storage");
            continue;
        };
        let delete = data.as_ref().map_or(true, |d| d.is_empty());
        let present = w.model.map.contains_key(&key);
        classify(ctx, &w.model, &key, data.as_deref());
        let (path, _) = w.model.path(&key);
        w.act(&key, data.as_deref())?;
        let what = format!("operation {i} ({} of {})", verb(data.as_deref()), hex(&key));
        let after = w.h.records();
        if delete && !present {
            ensure!(after == before, "{what}: deleting an absent key changed the storage");
            ctx.label("absent key, storage unchanged");
        }
        if delete && present {
            let needed = w.model.records();
            for h in &path {
                ensure!(!needed.contains_key(h), "harness: a path node is still needed");
                ensure!(!after.contains_key(h), "{what}: path node {} was left in storage", hex(h));
            }
            ctx.nontrivial_if(path.len() >= 2);
            ctx.compared += path.len() as u64;
        }
        for (h, r) in w.model.records() {
            ensure!(after.get(&h) == Some(&r), "{what}: needed record {} is {:?}", hex(&h), after.get(&h));
            if let Some(old) = before.get(&h) {
                ensure!(*old == r, "{what}: record {} was altered", hex(&h));
            }
            ctx.compared += 1;
        }
        w.check_root(&what)?;
    }
    Ok(())
}

pub fn s05() -> Property {
    Property {
        id: "S05",
        subs: vec![
            sub("histories", "random histories; around every operation the storage is compared: the deleted key's path is gone, records the new tree needs are present and unaltered, absent deletes change nothing; non-trivial: a present key below an inner node was deleted", 40_000, 400_000, small_hist, s05_check),
            sub("wide", "the same with up to 40 keys and 160 operations", 3_000, 30_000, wide_hist, s05_check),
            enumerate("long", "6 000 to 250 000 operations over maps of up to 100 000 entries: after every delete of a present key its former path is looked up, at a stride the whole tree; always non-trivial", 5, 8, long_erase, long_check),
        ],
    }
}

// ---------------------------------------------------------------- S06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct S06 {
    keys: Vec<KeySpec>,
    base: Vec<SOp>,
    ops: Vec<SOp>,
}

fn s06_gen() -> BoxedStrategy<S06> {
    (key_pool(10), prop::collection::vec(sop(), 0..14), prop::collection::vec(sop(), 1..3))
        .prop_map(|(keys, base, ops)| S06 { keys, base, ops })
        .boxed()
}

/// Builds the state before operation `upto`: an unreloaded tree and its storage.
fn s06_world(c: &S06, keys: &[B32], upto: usize) -> Result<World, String> {
    let mut w = World::new(Handle::new());
    for op in c.base.iter().chain(&c.ops[..upto]) {
        w.apply(op, keys)?;
    }
    Ok(w)
}

/// The accesses to fail of an operation that makes `n`: all of them, or the first and last and a
/// sample of those between, which on long paths are all alike.
fn fault_points(n: u64, salt: u64) -> Vec<u64> {
    const ENDS: u64 = 20;
    if n <= 4 * ENDS {
        return (0..n).collect();
    }
    let step = (n - 2 * ENDS).div_ceil(16);
    let middle = (ENDS + salt % step..n - ENDS).step_by(step as usize);
    (0..ENDS).chain(middle).chain(n - ENDS..n).collect()
}

/// How many storage accesses operation `t` makes.
fn s06_accesses(c: &S06, keys: &[B32], t: usize) -> Result<u64, String> {
    let mut w = s06_world(c, keys, t)?;
    let root = w.tree.root();
    let ctl = w.h.ctl.clone();
    ctl.arm(Plan { at: u64::MAX, after: false, repeat: false });
    match resolve(&c.ops[t], keys) {
        Some((key, data)) => act(&mut w.tree, &key, data.as_deref()).map_err(|e| format!("{e:?}"))?,
        None => drop(load(&w.h, &root)?),
    }
    ctl.disarm();
    Ok(ctl.count())
}

fn s06_check(c: &S06, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    for t in 0..c.ops.len() {
        let n = s06_accesses(c, &keys, t)?;
        for (m, &(after, repeat)) in MODES.iter().enumerate() {
            let salt = 7 * c.keys.len() as u64 + 3 * c.base.len() as u64 + 5 * (t + m) as u64;
            for at in fault_points(n, salt) {
                let mut w = s06_world(c, &keys, t)?;
                let root = w.tree.root();
                let before = w.model.clone();
                let ctl = w.h.ctl.clone();
                let plan = Plan { at, after, repeat };
                let what = format!("operation {t} {:?} on {} entries, {plan:?}", c.ops[t], before.map.len());
                let Some((key, data)) = resolve(&c.ops[t], &keys) else {
                    let h = w.h.clone();
                    ctl.arm(plan);
                    let r = guarded(|| STree::load(h, &root).map(|t| t.root()));
                    let fired = ctl.disarm();
                    w.reload()?;
                    w.check_root(&what)?;
                    if fired == 0 {
                        continue;
                    }
                    reported(r, &what)?;
                    ctx.label("failed load");
                    continue;
                };
                ctl.arm(plan);
                let r = guarded(|| act(&mut w.tree, &key, data.as_deref()));
                let fired = ctl.disarm();
                if fired == 0 {
                    ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                    continue;
                }
                reported(r, &what)?;
                let mut next = before.clone();
                next.update(&key, data.as_deref().unwrap_or_default());
                // The tree is as before, or, for a delete, as after.
                let got = w.tree.root();
                let delete = data.as_ref().map_or(true, |d| d.is_empty());
                if got == before.root() {
                    w.model = before.clone();
                } else {
                    ensure!(
                        delete && got == next.root(),
                        "{what}: the root became {}, neither that before the operation nor after a delete",
                        hex(&got)
                    );
                    w.model = next.clone();
                    ctx.label("delete failed after the root moved");
                }
                check_storage(&w.h, &w.model, &what)?;
                // Reloading gives that state.
                let mut l = World { h: w.h.fork(), tree: load(&w.h, &got)?, model: w.model.clone() };
                l.tree = load(&l.h, &got).map_err(|e| format!("{what}: then {e}"))?;
                // Half of the time another key is touched before the operation is repeated.
                if (at as usize + m) % 2 == 1 {
                    let other = keys[at as usize % keys.len()];
                    if other != key {
                        w.act(&other, Some(b"other")).map_err(|e| format!("{what}: {e}"))?;
                        w.check_root(&format!("{what}, after touching another key"))?;
                        check_storage(&w.h, &w.model, &what)?;
                    }
                }
                for x in [&mut w, &mut l] {
                    x.act(&key, data.as_deref()).map_err(|e| format!("{what}, repeated: {e}"))?;
                    x.check_root(&format!("{what}, repeated"))?;
                    check_storage(&x.h, &x.model, &what)?;
                }
                for op in &c.ops[t + 1..] {
                    w.apply(op, &keys).map_err(|e| format!("{what}, later operation: {e}"))?;
                    w.check_root(&format!("{what}, later operation"))?;
                }
                // Sometimes take everything down again.
                if (at as usize + m) % 3 == 0 {
                    let left: Vec<B32> = l.model.map.keys().copied().collect();
                    for k in left {
                        l.act(&k, None).map_err(|e| format!("{what}, taking down: {e}"))?;
                        l.check_root(&format!("{what}, taking down"))?;
                    }
                }
                ctx.compared += 5;
                ctx.nontrivial_if(!before.map.is_empty());
                ctx.label(if delete { "failed delete" } else { "failed update" });
                ctx.label(match (after, repeat) {
                    (false, false) => "failed before taking effect",
                    (true, false) => "failed after taking effect",
                    _ => "kept failing",
                });
            }
        }
    }
    Ok(())
}

fn reported<T: std::fmt::Debug>(
    r: Result<Result<T, MerkleTreeError<Boom>>, String>,
    what: &str,
) -> R {
    match r {
        Err(p) => Err(format!("{what}: {p}")),
        Ok(Ok(v)) => Err(format!("{what}: succeeded: {}", short(&v))),
        Ok(Err(e)) => {
            ensure!(
                format!("{e:?}").contains("Boom("),
                "{what}: reported as {e:?}, which is not the storage's error"
            );
            Ok(())
        }
    }
}

/// A history during which several accesses fail, here and there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct S06Storm {
    keys: Vec<KeySpec>,
    base: Vec<SOp>,
    /// Operations with how often they are tried at most, until they succeed.
    ops: Vec<(SOp, u8)>,
    strikes: Vec<Strike>,
}

fn s06_storm_gen() -> BoxedStrategy<S06Storm> {
    let n = prop_oneof![3 => 1usize..10, 2 => 1usize..50];
    (
        key_pool(14),
        prop::collection::vec(sop(), 0..14),
        n.prop_flat_map(|n| prop::collection::vec((sop(), 1u8..4), n)),
        strikes(),
    )
        .prop_map(|(keys, base, ops, strikes)| S06Storm { keys, base, ops, strikes })
        .boxed()
}

fn s06_storm_check(c: &S06Storm, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let mut w = World::new(Handle::new());
    for op in &c.base {
        w.apply(op, &keys)?;
    }
    let ctl = w.h.ctl.clone();
    ctl.storm(&c.strikes);
    let mut failures = 0;
    for (t, (op, attempts)) in c.ops.iter().enumerate() {
        for attempt in 0..*attempts {
            let before = ctl.fired();
            let root = w.tree.root();
            let what = format!(
                "op {t} {op:?}, attempt {attempt}, on {} entries after {failures} failures",
                w.model.map.len()
            );
            let hurt = match resolve(op, &keys) {
                None => {
                    let h = w.h.clone();
                    match guarded(|| STree::load(h, &root)) {
                        Ok(Ok(tree)) => {
                            ensure!(ctl.fired() == before, "{what}: a failure went unreported");
                            w.tree = tree;
                            false
                        }
                        r if ctl.fired() > before => {
                            reported(r.map(|x| x.map(|_| ())), &what)?;
                            ctx.label("failed load");
                            true
                        }
                        Ok(Err(e)) => return Err(format!("{what}: {e:?}")),
                        Err(p) => return Err(format!("{what}: {p}")),
                    }
                }
                Some((key, data)) => {
                    let r = guarded(|| act(&mut w.tree, &key, data.as_deref()));
                    let mut next = w.model.clone();
                    next.update(&key, data.as_deref().unwrap_or_default());
                    if ctl.fired() == before {
                        ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                        w.model = next;
                        false
                    } else {
                        reported(r, &what)?;
                        let delete = data.as_ref().map_or(true, |d| d.is_empty());
                        let got = w.tree.root();
                        if got != w.model.root() {
                            ensure!(
                                delete && got == next.root(),
                                "{what}: the root became {}, neither that before the operation nor after a delete",
                                hex(&got)
                            );
                            w.model = next;
                            ctx.label("delete failed after the root moved");
                        }
                        ctx.label(if delete { "failed delete" } else { "failed update" });
                        true
                    }
                }
            };
            failures += hurt as u32;
            w.check_root(&what)?;
            ctx.compared += 1;
            if hurt || t % 4 == 0 {
                check_storage(&w.h, &w.model, &what)?;
                let left = ctl.calm();
                let l = load(&w.h, &w.tree.root()).map_err(|e| format!("{what}: then {e}"))?;
                ensure_eq!(hex(&l.root()), hex(&w.model.root()), "{what}: reload");
                ctl.resume(left);
            }
            if !hurt {
                break;
            }
        }
    }
    ctl.calm();
    let what = format!("after {failures} failures");
    check_storage(&w.h, &w.model, &what)?;
    w.act(&[0x5a; 32], Some(b"last")).map_err(|e| format!("{what}: {e}"))?;
    w.check_root(&what)?;
    check_storage(&w.h, &w.model, &what)?;
    let left: Vec<B32> = w.model.map.keys().copied().collect();
    for k in left {
        w.act(&k, None).map_err(|e| format!("{what}, taking down: {e}"))?;
        w.check_root(&format!("{what}, taking down"))?;
    }
    ctx.nontrivial = failures > 0;
    ctx.label_if(failures > 1, "several failures");
    ctx.label_if(failures > 5, "more than five failures");
    Ok(())
}

pub fn s06() -> Property {
    Property {
        id: "S06",
        subs: vec![sub("faults", "for each of the last operations (update, delete, load) of a random history, every storage access of it (the first and last 20 and a sample of the others where there are more than 80) is made to fail in turn, before or after taking effect, once or from then on; then root, whole storage, a reload, the repeated operation and a complete take-down are checked; non-trivial: a failure on a tree with entries", 1_000, 10_000, s06_gen, s06_check),
            sub("storm", "a random history of updates, deletes and reloads, repeated ones included, during which up to 11 bursts of accesses fail; after every operation the root, after every failure the whole storage and a reload, at the end a complete take-down; non-trivial: an operation failed", 25_000, 300_000, s06_storm_gen, s06_storm_check)],
    }
}

// ---------------------------------------------------------------- S07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct S07 {
    keys: Vec<KeySpec>,
    base: Vec<SOp>,
    /// Which records are damaged, by number among the tree's records; new kind byte or lost.
    damage: Vec<(u16, Option<u8>)>,
    ops: Vec<SOp>,
    reload: bool,
}

pub fn s07_gen() -> BoxedStrategy<S07> {
    let damage = (any::<u16>(), prop::option::of(2u8..=255));
    let update = (any::<u8>(), val()).prop_map(|(k, v)| SOp::Update(k, v));
    let base = prop::collection::vec(prop_oneof![5 => update, 1 => sop()], 1..24);
    (
        key_pool(14),
        base,
        prop::collection::vec(damage, 1..4),
        prop::collection::vec(sop(), 1..10),
        any::<bool>(),
    )
        .prop_map(|(keys, base, damage, ops, reload)| S07 { keys, base, damage, ops, reload })
        .boxed()
}

fn s07_check(c: &S07, ctx: &mut Ctx) -> R {
    damage(c, ctx, false)
}

/// With `named`, errors must also name a damaged record on or beside the path, or its kind byte.
pub fn damage(c: &S07, ctx: &mut Ctx, named: bool) -> R {
    let keys = resolve_keys(&c.keys);
    let mut w = World::new(Handle::new());
    for op in &c.base {
        w.apply(op, &keys)?;
    }
    let hashes: Vec<B32> = w.model.records().into_keys().collect();
    if hashes.is_empty() {
        return Ok(());
    }
    let root = w.tree.root();
    for (i, kind) in &c.damage {
        let h = hashes[*i as usize % hashes.len()];
        let mut map = w.h.map.borrow_mut();
        match kind {
            None => {
                map.remove(&h);
            }
            Some(k) => {
                if let Some(r) = map.get_mut(&h) {
                    r.1 = *k;
                }
            }
        }
    }
    let damaged = |w: &World, model: &RefSparse| -> BTreeSet<B32> {
        let map = w.h.map.borrow();
        model
            .records()
            .into_iter()
            .filter(|(h, r)| map.get(h) != Some(r))
            .map(|(h, _)| h)
            .collect()
    };
    let bad = damaged(&w, &w.model);
    // Loading.
    let r = guarded(|| STree::load(w.h.clone(), &root).map(|t| t.root()))?;
    match r {
        Ok(got) => {
            ensure!(!bad.contains(&root), "a damaged root record loads");
            ensure_eq!(hex(&got), hex(&root), "root of a load");
        }
        Err(e) => ensure!(bad.contains(&root), "load failed with a sound root record: {e:?}"),
    }
    ctx.label_if(bad.contains(&root), "root record damaged");
    if c.reload && !bad.contains(&root) {
        w.tree = load(&w.h, &root)?;
        ctx.label("tree loaded from the damaged storage");
    }
    for (i, op) in c.ops.iter().enumerate() {
        let Some((key, data)) = resolve(op, &keys) else { continue };
        let bad = damaged(&w, &w.model);
        let (path, sides) = w.model.path(&key);
        let touched = path.iter().chain(&sides).any(|h| bad.contains(h));
        let before = w.tree.root();
        let r = guarded(|| act(&mut w.tree, &key, data.as_deref()))
            .map_err(|p| format!("operation {i} {op:?}: {p}"))?;
        ctx.compared += 1;
        match r {
            Ok(()) => {
                w.model.update(&key, data.as_deref().unwrap_or_default());
                w.check_root(&format!("operation {i} {op:?} with {} damaged records", bad.len()))?;
                ctx.label("succeeded beside the damage");
            }
            Err(e) => {
                ensure!(
                    touched,
                    "operation {i} {op:?} failed though no damaged record is on or beside its path: {e:?}"
                );
                ensure_eq!(hex(&w.tree.root()), hex(&before), "operation {i} failed: root");
                let debug = format!("{e:?}");
                ensure!(!debug.contains("StorageError"), "damage reported as a storage failure: {debug}");
                if named {
                    let map = w.h.map.borrow();
                    let says = |text: &str| {
                        path.iter().chain(&sides).filter(|h| bad.contains(*h)).any(|h| match map.get(h) {
                            None => text.contains(&format!("{h:?}")) || text.to_lowercase().contains(&hex(h)),
                            Some(r) => numbers(text).contains(&(r.1 as u64)),
                        })
                    };
                    ensure!(says(&debug), "operation {i} {op:?} failed without naming a damaged record it needs: {debug}");
                    text_says(text_of!(&e), &debug, says)?;
                }
                ctx.label_if(debug.contains("NotFound"), "lost record reported");
                ctx.label_if(debug.contains("Prefix"), "invalid kind byte reported");
                ctx.nontrivial = true;
            }
        }
        ctx.label_if(touched, "damage on or beside the path");
    }
    Ok(())
}

/// Each single record of a small tree, lost or mis-tagged, with one operation on each key.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single {
    n: u8,
    record: u16,
    kind: Option<u8>,
    key: u8,
    op: u8,
}

fn single_case(i: u64) -> Single {
    Single {
        n: (i % 5 + 2) as u8,
        record: (i / 5 % 12) as u16,
        kind: [None, Some(2), Some(255)][(i / 60 % 3) as usize],
        key: (i / 180 % 8) as u8,
        op: (i / 1440 % 3) as u8,
    }
}

fn single_check(c: &Single, ctx: &mut Ctx) -> R {
    let op = match c.op {
        0 => SOp::Update(c.key, Val::Small(1)),
        1 => SOp::Delete(c.key),
        _ => SOp::Update(c.key, Val::Small(0)),
    };
    let keys = (0..8).map(|i| KeySpec::Near { base: i / 2, bit: [0, 1, 2, 3, 40, 5, 255, 7][i as usize], rest: Rest::Random(i as u32) }).collect();
    let h = S07 {
        keys,
        base: (0..c.n).map(|i| SOp::Update(i, Val::Small(0))).collect(),
        damage: vec![(c.record, c.kind)],
        ops: vec![op, SOp::Update(1, Val::Small(3)), SOp::Delete(0)],
        reload: false,
    };
    s07_check(&h, ctx)
}

pub fn s07() -> Property {
    Property {
        id: "S07",
        subs: vec![
            sub("damage", "trees with a random set of records lost or given an invalid kind byte, then loads, updates and deletes; success requires the right root, failure requires damage on or beside the key's path and an unchanged root; non-trivial: an operation was refused", 80_000, 800_000, s07_gen, s07_check),
            enumerate("single", "each of the first 12 records of five small trees lost or mis-tagged, each key updated, overwritten or deleted; non-trivial: an operation was refused", 4_320, 4_320, single_case, single_check),
        ],
    }
}
