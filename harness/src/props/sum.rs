//! M01-M03: the sum tree.
//!
//! The node type of the sum tree is private to the crate; it is inferred here, never named, and
//! the tree is handed on as closures.

use crate::engine::{enumerate, guarded, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::props::binary::{length_case, Length, MODES};
use crate::store::*;
use crate::{ensure, ensure_eq};
use fuel_merkle::common::StorageMap;
use fuel_merkle::sum;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SumRec {
    pub fee: u64,
    pub height: u32,
    pub hash: B32,
    pub left: Option<B32>,
    pub right: Option<B32>,
}

/// A sum tree over a visible storage.
pub struct SumTree {
    push: Box<dyn FnMut(u64, &[u8]) -> Result<(), Boom>>,
    root: Box<dyn FnMut() -> Result<(u64, B32), Boom>>,
    records: Box<dyn Fn() -> BTreeMap<B32, SumRec>>,
    /// Starts an empty tree over the same storage.
    restart: Box<dyn FnMut()>,
    pub ctl: Rc<Ctl>,
}

impl SumTree {
    pub fn new() -> Self {
        let h = Handle::new();
        let ctl = h.ctl.clone();
        let tree = Rc::new(RefCell::new(sum::MerkleTree::<Tbl<B32, _>, _>::new(h.clone())));
        let (a, b, c) = (tree.clone(), tree.clone(), tree);
        let (h1, h2) = (h.clone(), h);
        SumTree {
            push: Box::new(move |fee, data| a.borrow_mut().push(fee, data)),
            root: Box::new(move || b.borrow_mut().root()),
            records: Box::new(move || {
                let map = h1.records();
                map.iter()
                    .map(|(k, n)| {
                        let r = SumRec {
                            fee: n.fee(),
                            height: n.height(),
                            hash: *n.hash(),
                            left: n.left_child_key(),
                            right: n.right_child_key(),
                        };
                        (*k, r)
                    })
                    .collect()
            }),
            restart: Box::new(move || {
                *c.borrow_mut() = sum::MerkleTree::<Tbl<B32, _>, _>::new(h2.clone());
            }),
            ctl,
        }
    }

    pub fn push(&mut self, fee: u64, data: &[u8]) -> Result<(), Boom> {
        (self.push)(fee, data)
    }

    pub fn root(&mut self) -> Result<(u64, B32), Boom> {
        (self.root)()
    }

    pub fn records(&self) -> BTreeMap<B32, SumRec> {
        (self.records)()
    }

    pub fn restart(&mut self) {
        (self.restart)()
    }
}

impl Default for SumTree {
    fn default() -> Self {
        Self::new()
    }
}

/// A sum tree over the bundled map, owned or borrowed.
fn with_map(borrowed: bool, f: &mut dyn FnMut(SumOps) -> R) -> R {
    if borrowed {
        let mut map = StorageMap::<Tbl<B32, _>>::new();
        let mut t = sum::MerkleTree::<Tbl<B32, _>, _>::new(&mut map);
        f(&mut |op| match op {
            None => t.root().map(Some).map_err(|e| match e {}),
            Some((fee, d)) => t.push(fee, d).map(|_| None).map_err(|e| match e {}),
        })
    } else {
        let mut t = sum::MerkleTree::<Tbl<B32, _>, _>::new(StorageMap::<Tbl<B32, _>>::new());
        f(&mut |op| match op {
            None => t.root().map(Some).map_err(|e| match e {}),
            Some((fee, d)) => t.push(fee, d).map(|_| None).map_err(|e| match e {}),
        })
    }
}

type SumOps<'a> = &'a mut dyn FnMut(Option<(u64, &[u8])>) -> Result<Option<(u64, B32)>, String>;

fn describe(r: &(u64, B32)) -> String {
    format!("({}, {})", r.0, hex(&r.1))
}

fn want(model: &[SumNode]) -> Option<(u64, B32)> {
    sum_root(model).map(|n| (n.fee as u64, n.hash))
}

/// Fees of every magnitude; rarely near the top of the range.
pub fn fee() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(0u64),
        2 => Just(1u64),
        4 => 0u64..1000,
        6 => (8u32..64, any::<u64>()).prop_map(|(s, x)| x >> s),
        2 => (0u32..56).prop_map(|s| 1u64 << s),
        2 => (1u32..56).prop_map(|s| (1u64 << s) - 1),
        1 => select(constants_and(&[1 << 32], |x| x < 1 << 60)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SumData {
    Blob(Blob),
    /// An earlier leaf's data, with a new fee.
    SameData(u16),
    /// An earlier leaf's data and fee.
    SameLeaf(u16),
    /// The hash of an earlier leaf.
    LeafHash(u16),
    /// The preimage of the node over two neighbouring leaves, less its first `cut` bytes.
    Preimage(u16, u8),
    Root,
}

fn sum_data() -> BoxedStrategy<SumData> {
    prop_oneof![
        10 => blob().prop_map(SumData::Blob),
        1 => any_blob().prop_map(SumData::Blob),
        1 => any::<u16>().prop_map(SumData::SameData),
        2 => any::<u16>().prop_map(SumData::SameLeaf),
        1 => any::<u16>().prop_map(SumData::LeafHash),
        1 => (any::<u16>(), 0u8..20).prop_map(|(i, c)| SumData::Preimage(i, c)),
        1 => Just(SumData::Root),
    ]
    .boxed()
}

type Leaf = (u64, Vec<u8>);

fn resolve(leaves: &[Leaf], model: &[SumNode], fee: u64, d: &SumData) -> Leaf {
    let n = leaves.len();
    let (f, bytes) = match d {
        SumData::Blob(b) => (fee, b.bytes()),
        _ if n == 0 => (fee, vec![]),
        SumData::SameData(i) => (fee, leaves[*i as usize % n].1.clone()),
        SumData::SameLeaf(i) => leaves[*i as usize % n].clone(),
        SumData::LeafHash(i) => (fee, model[*i as usize % n].hash.to_vec()),
        SumData::Preimage(i, cut) => {
            let (l, r) = (&model[*i as usize % n], &model[(*i as usize + 1) % n]);
            let mut v = vec![1];
            v.extend((l.fee as u64).to_be_bytes());
            v.extend(l.hash);
            v.extend((r.fee as u64).to_be_bytes());
            v.extend(r.hash);
            (fee, v.split_off(*cut as usize))
        }
        SumData::Root => (fee, sum_root(model).map(|n| n.hash.to_vec()).unwrap_or_default()),
    };
    // Keep the total within 64 bits.
    let total: u128 = model.iter().map(|n| n.fee).sum();
    let room = u64::MAX as u128 - total;
    if f as u128 <= room {
        (f, bytes)
    } else {
        (room as u64, bytes)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct M01 {
    /// Leaves of another tree that used the same storage before.
    dirty: u16,
    leaves: Vec<(u64, SumData)>,
    /// Before which pushes, and how often, the root is read.
    reads: Vec<(u16, u8)>,
    map: Option<bool>,
}

fn m01_gen() -> BoxedStrategy<M01> {
    let n = prop_oneof![6 => 0usize..12, 4 => 0usize..40, 1 => 40usize..150];
    let any_fee = prop_oneof![20 => fee(), 1 => wide_u64()];
    n.prop_flat_map(move |n| {
        (
            prop_oneof![3 => Just(0u16), 1 => 1u16..20],
            prop::collection::vec((any_fee.clone(), sum_data()), n),
            prop::collection::vec((any::<u16>(), 1u8..4), 0..6),
            prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)],
        )
            .prop_map(|(dirty, leaves, reads, map)| M01 { dirty, leaves, reads, map })
    })
    .boxed()
}

fn m01_check(c: &M01, ctx: &mut Ctx) -> R {
    let n = c.leaves.len();
    ctx.nontrivial_if(n > 1);
    ctx.label_if(n > 1 && !n.is_power_of_two(), "incomplete tree");
    ctx.label_if(n == 0, "empty tree");
    ctx.label_if(n > 1 && !c.reads.is_empty(), "root read between pushes");
    ctx.label_if(c.map.is_some(), "bundled map");
    ctx.label_if(c.map.is_none() && c.dirty > 0, "storage used before");
    let body = &mut |tree: SumOps| -> R {
        let (mut leaves, mut model) = (Vec::new(), Vec::new());
        for (i, (fee, d)) in c.leaves.iter().enumerate() {
            for (at, times) in &c.reads {
                if *at as usize % n == i {
                    for _ in 0..*times {
                        let got = tree(None).map_err(|e| format!("root with {i} leaves: {e}"))?;
                        let want = want(&model).unwrap();
                        ensure_eq!(describe(&got.unwrap()), describe(&want), "root of {i} leaves");
                        ctx.compared += 1;
                    }
                }
            }
            let (f, bytes) = resolve(&leaves, &model, *fee, d);
            tree(Some((f, &bytes))).map_err(|e| format!("push {i}: {e}"))?;
            model.push(sum_leaf(f, &bytes));
            leaves.push((f, bytes));
            ctx.label_if(f > u32::MAX as u64, "fee above 32 bits");
        }
        let want = want(&model).unwrap();
        for t in 0..3 {
            let got = tree(None).map_err(|e| format!("root of {n} leaves: {e}"))?.unwrap();
            ensure_eq!(describe(&got), describe(&want), "root of {n} leaves, read {t}");
            ctx.compared += 1;
        }
        ctx.label_if(want.0 > u64::MAX / 2, "total above 2^63");
        Ok(())
    };
    match c.map {
        Some(borrowed) => {
            with_map(borrowed, &mut |t| body(t))
        }
        None => {
            let mut t = SumTree::new();
            if c.dirty > 0 {
                for i in 0..c.dirty {
                    t.push(i as u64, &i.to_be_bytes()).map_err(|e| format!("{e:?}"))?;
                }
                t.root().map_err(|e| format!("{e:?}"))?;
                t.restart();
            }
            body(&mut |op| match op {
                None => t.root().map(Some).map_err(|e| format!("{e:?}")),
                Some((f, d)) => t.push(f, d).map(|_| None).map_err(|e| format!("{e:?}")),
            })
        }
    }
}

/// Every size up to some bound, the root checked after every push.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    upto: u64,
    seed: u32,
}

fn grow_check(c: &Grow, ctx: &mut Ctx) -> R {
    let mut t = SumTree::new();
    let mut model = Vec::new();
    for i in 0..c.upto {
        let b = expand(c.seed.wrapping_add(i as u32), 8 + i as usize % 40);
        let fee = u64::from_be_bytes(b[..8].try_into().unwrap()) >> (12 + i % 50);
        t.push(fee, &b[8..]).map_err(|e| format!("{e:?}"))?;
        model.push(sum_leaf(fee, &b[8..]));
        let got = t.root().map_err(|e| format!("{e:?}"))?;
        ensure_eq!(describe(&got), describe(&want(&model).unwrap()), "root of {} leaves", i + 1);
        ctx.compared += 1;
    }
    ctx.nontrivial = c.upto > 1;
    Ok(())
}

fn grow(i: u64) -> Grow {
    Grow { upto: 33 + 64 * i, seed: i as u32 }
}

/// Totals at and beyond the end of the 64-bit range.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edge {
    before: Vec<u64>,
    /// The fee that brings the total to 2^64 - 1 - `short` (wrapping beyond if negative).
    over: i64,
    after: Vec<u64>,
    read_between: bool,
}

fn edge_gen() -> BoxedStrategy<Edge> {
    (
        prop::collection::vec(prop_oneof![3 => fee(), 1 => wide_u64()], 0..9),
        prop_oneof![3 => -3i64..=3, 1 => any::<i32>().prop_map(i64::from), 1 => any::<i64>()],
        prop::collection::vec(prop_oneof![3 => Just(0u64), 1 => wide_u64()], 0..6),
        any::<bool>(),
    )
        .prop_map(|(before, over, after, read_between)| Edge { before, over, after, read_between })
        .boxed()
}

fn edge_check(c: &Edge, ctx: &mut Ctx) -> R {
    let mut fees = Vec::new();
    let mut total = 0u128;
    for f in &c.before {
        let f = *f.min(&(u64::MAX - total as u64));
        total += f as u128;
        fees.push(f);
    }
    let edge = (u64::MAX as i128 - total as i128 + c.over as i128).clamp(0, u64::MAX as i128);
    fees.push(edge as u64);
    fees.extend(&c.after);
    let mut t = SumTree::new();
    let mut model = Vec::new();
    let mut total = 0u128;
    for (i, f) in fees.iter().enumerate() {
        let d = [i as u8, c.over as u8];
        total += *f as u128;
        model.push(sum_leaf(*f, &d));
        let fits = total <= u64::MAX as u128;
        let r = guarded(|| t.push(*f, &d));
        match &r {
            Ok(Ok(())) => {}
            _ if fits => return Err(format!("push {i} of fees {fees:?} refused: {}", short(&r))),
            _ => {
                ctx.label("push refused");
                ctx.nontrivial = true;
                return Ok(());
            }
        }
        if c.read_between || i + 1 == fees.len() {
            let r = guarded(|| t.root());
            match (&r, fits) {
                (Ok(Ok(got)), true) => {
                    let want = want(&model).unwrap();
                    ensure_eq!(describe(got), describe(&want), "root over fees {fees:?}");
                    ctx.compared += 1;
                    ctx.label_if(want.0 == u64::MAX, "total 2^64 - 1");
                    ctx.nontrivial_if(u64::MAX - want.0 < 1 << 32);
                }
                (_, true) => {
                    return Err(format!("root over fees {:?}: {}", &fees[..=i], short(&r)))
                }
                (Ok(Ok(got)), false) => {
                    return Err(format!(
                        "the fees {:?} total {total}, but the root is {}",
                        &fees[..=i],
                        describe(got)
                    ))
                }
                (_, false) => {
                    ctx.label("root refused");
                    ctx.nontrivial = true;
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

/// Leaves of one length and slight variations of it.
fn length_check(c: &Length, ctx: &mut Ctx) -> R {
    let mut t = SumTree::new();
    let mut model = Vec::new();
    for (i, data) in variants(c.len, c.seed).into_iter().enumerate() {
        let fee = c.seed as u64 * i as u64;
        t.push(fee, &data).map_err(|e| format!("{e:?}"))?;
        model.push(sum_leaf(fee, &data));
        let got = t.root().map_err(|e| format!("{e:?}"))?;
        ensure_eq!(describe(&got), describe(&want(&model).unwrap()), "leaf {i} of {} bytes", data.len());
        ctx.compared += 1;
    }
    ctx.nontrivial = c.len > 0;
    ctx.label_if(c.len > 1 << 16, "over 65536 bytes");
    Ok(())
}

/// A long run of pushes; the root is read after every `stride`-th and compared.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    n: u64,
    stride: u64,
    seed: u32,
    /// Walk the storage at the end.
    audit: bool,
}

fn long_check(c: &Long, ctx: &mut Ctx) -> R {
    let mut t = SumTree::new();
    let mut model = RefSum::default();
    let block = expand(c.seed, 64);
    let word = u64::from_be_bytes(block[..8].try_into().unwrap());
    let shift = 64 - c.n.leading_zeros();
    for i in 0..c.n {
        let fee = word.rotate_left(i as u32 * 7).wrapping_mul(i | 1) >> (shift as u64 + i % 40);
        let data = [&i.to_be_bytes()[..], &block[..i as usize % 64]].concat();
        t.push(fee, &data).map_err(|e| format!("{e:?}"))?;
        model.push(fee, &data);
        if (i + 1) % c.stride == 0 || i + 1 == c.n || (i + 1).is_power_of_two() || i.is_power_of_two() {
            let got = t.root().map_err(|e| format!("{e:?}"))?;
            let want = model.root();
            ensure_eq!(describe(&got), describe(&(want.fee as u64, want.hash)), "root of {} leaves", i + 1);
            ctx.compared += 1;
        }
    }
    if c.audit {
        let root = model.root();
        let records = t.records();
        let mut out = Vec::new();
        let top = walk(&records, &root.hash, &mut out, &mut (2 * c.n))
            .map_err(|e| format!("auditing {} leaves: {e}", c.n))?;
        ensure_eq!(top.fee as u128, root.fee, "fee in the root's record");
        ensure!(out.len() as u64 == c.n, "the walk finds {} leaves of {}", out.len(), c.n);
        for (i, (h, l)) in out.iter().zip(&model.leaves).enumerate() {
            ensure_eq!(hex(h), hex(&l.hash), "leaf {i} found by the walk");
            ensure_eq!(records[h].fee as u128, l.fee, "fee in the record of leaf {i}");
        }
        ctx.compared += c.n;
    }
    ctx.nontrivial = c.n > 1;
    ctx.label_if(c.n > 65536, "over 65536 leaves");
    Ok(())
}

fn long(i: u64) -> Long {
    let n = [1_000, 2_049, 4_096, 8_191, 16_385, 33_000, 66_000, 132_000, 530_000][i as usize % 9];
    Long { n, stride: 1 + n / 4000, seed: i as u32, audit: false }
}

fn long_audit(i: u64) -> Long {
    Long { audit: true, stride: 997, ..long(i) }
}

pub fn m01() -> Property {
    Property {
        id: "M01",
        subs: vec![
            sub("history", "a random list of (fee, data) leaves, data partly derived from earlier hashes, root reads in between, over a fresh, a used and the bundled storage; every root compared with the recursive definition; non-trivial: 2 leaves or more", 200_000, 2_400_000, m01_gen, m01_check),
            sub("overflow", "fees whose total ends at, just below or beyond 2^64 - 1, at every leaf; the exact root is required while the total fits and a refusal (error or panic) beyond; non-trivial: a total within 2^32 of the limit or beyond it", 200_000, 2_400_000, edge_gen, edge_check),
            enumerate("sizes", "trees grown leaf by leaf with the root compared after every push; non-trivial: 2 leaves or more", 12, 40, grow, grow_check),
            enumerate("long", "1 000 to 530 000 leaves with the root compared at a stride and around powers of two; non-trivial: 2 leaves or more", 8, 9, long, long_check),
            enumerate("lengths", "leaves of every length up to 1100 and around powers of two up to 16 MiB, with others that differ from them in one byte or in length; non-trivial: not empty", LENGTHS, ALL_LENGTHS, length_case, length_check),
        ],
    }
}

/// Walks the tree under `at`, collecting its leaves' hashes from left to right.
fn walk(
    records: &BTreeMap<B32, SumRec>,
    at: &B32,
    out: &mut Vec<B32>,
    budget: &mut u64,
) -> Result<SumRec, String> {
    ensure!(*budget > 0, "the tree in storage is larger than it can be");
    *budget -= 1;
    let Some(r) = records.get(at) else {
        return Err(format!("no record for {}", hex(at)));
    };
    ensure_eq!(hex(&r.hash), hex(at), "hash in the record stored under it");
    match (&r.left, &r.right) {
        (None, None) => {
            ensure_eq!(r.height, 0, "height of leaf {}", hex(at));
            out.push(*at);
        }
        (Some(l), Some(rt)) => {
            let lr = walk(records, l, out, budget)?;
            let rr = walk(records, rt, out, budget)?;
            let sum = lr.fee as u128 + rr.fee as u128;
            ensure_eq!(r.fee as u128, sum, "fee of inner node {}", hex(at));
            let h = sha(&[&[1], &lr.fee.to_be_bytes(), l, &rr.fee.to_be_bytes(), rt]);
            ensure_eq!(hex(&h), hex(at), "hash of an inner node from its children");
            ensure!(
                r.height > lr.height && r.height > rr.height,
                "height {} over children of height {} and {}",
                r.height,
                lr.height,
                rr.height
            );
        }
        _ => return Err(format!("record {} has one child only", hex(at))),
    }
    Ok(r.clone())
}

fn audit(t: &mut SumTree, model: &[SumNode], ctx: &mut Ctx) -> R {
    let got = t.root().map_err(|e| format!("{e:?}"))?;
    let n = model.len();
    ensure_eq!(describe(&got), describe(&want(model).unwrap()), "root of {n} leaves");
    let records = t.records();
    if n == 0 {
        return Ok(());
    }
    let mut out = Vec::new();
    let top = walk(&records, &got.1, &mut out, &mut (2 * n as u64))
        .map_err(|e| format!("auditing {n} leaves: {e}"))?;
    ensure_eq!(top.fee, got.0, "fee in the root's record");
    let hashes: Vec<_> = model.iter().map(|l| hex(&l.hash)).collect();
    ensure_eq!(out.iter().map(|h| hex(h)).collect::<Vec<_>>(), hashes, "leaves found by the walk");
    for l in model {
        let r = &records[&l.hash];
        ensure_eq!(r.fee as u128, l.fee, "fee in leaf record {}", hex(&l.hash));
    }
    ctx.compared += 1;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct M02 {
    leaves: Vec<(u64, SumData)>,
    /// Before which pushes the storage is audited.
    audits: Vec<u16>,
    /// Whether the root is read before every push.
    read_all: bool,
}

fn m02_gen() -> BoxedStrategy<M02> {
    let n = prop_oneof![6 => 0usize..12, 4 => 0usize..40, 1 => 40usize..130];
    let any_fee = prop_oneof![20 => fee(), 1 => wide_u64()];
    // A small alphabet makes equal leaves and equal subtrees frequent.
    let tiny = (0u64..2, (0u32..2).prop_map(|len| Blob { len, fill: Fill::Zero }))
        .prop_map(|(f, b)| (f, SumData::Blob(b)));
    n.prop_flat_map(move |n| {
        (
            prop_oneof![
                3 => prop::collection::vec((any_fee.clone(), sum_data()), n),
                1 => prop::collection::vec(tiny.clone(), n),
                1 => Just(vec![(7, SumData::Blob(Blob { len: 3, fill: Fill::Zero })); n]),
            ],
            prop::collection::vec(any::<u16>(), 0..5),
            any::<bool>(),
        )
            .prop_map(|(leaves, audits, read_all)| M02 { leaves, audits, read_all })
    })
    .boxed()
}

fn kept(before: &BTreeMap<B32, SumRec>, after: &BTreeMap<B32, SumRec>, what: &str) -> R {
    for (k, r) in before {
        ensure_eq!(after.get(k), Some(r), "{what}: record {}", hex(k));
    }
    Ok(())
}

fn m02_check(c: &M02, ctx: &mut Ctx) -> R {
    let n = c.leaves.len();
    let mut t = SumTree::new();
    let (mut leaves, mut model) = (Vec::new(), Vec::new());
    let mut seen = BTreeMap::new();
    for (i, (fee, d)) in c.leaves.iter().enumerate() {
        if c.audits.iter().any(|a| *a as usize % n == i) {
            audit(&mut t, &model, ctx)?;
            ctx.label_if(i > 0, "audited between pushes");
        } else if c.read_all {
            t.root().map_err(|e| format!("{e:?}"))?;
        }
        let now = t.records();
        kept(&seen, &now, "reading the root")?;
        seen = now;
        let (f, bytes) = resolve(&leaves, &model, *fee, d);
        t.push(f, &bytes).map_err(|e| format!("{e:?}"))?;
        let leaf = sum_leaf(f, &bytes);
        ctx.label_if(model.contains(&leaf), "equal leaves");
        let now = t.records();
        kept(&seen, &now, &format!("push {i}"))?;
        seen = now;
        model.push(leaf);
        leaves.push((f, bytes));
    }
    audit(&mut t, &model, ctx)?;
    kept(&seen, &t.records(), "the last root")?;
    ctx.nontrivial = n > 1;
    ctx.label_if(n > 2 && !n.is_power_of_two(), "incomplete tree");
    Ok(())
}

pub fn m02() -> Property {
    Property {
        id: "M02",
        subs: vec![
            sub("history", "a random list of (fee, data) leaves, often equal ones; the storage is walked from the root's hash at random points and at the end, and compared before and after every operation; non-trivial: 2 leaves or more", 45_000, 500_000, m02_gen, m02_check),
            enumerate("sizes", "the same for n = 0, 1, 2, ... leaves", 250, 600, m02_size, m02_check),
            enumerate("long", "the storage of 1 000 to 530 000 leaves, the root read at a stride; non-trivial: 2 leaves or more", 7, 9, long_audit, long_check),
        ],
    }
}

fn m02_size(i: u64) -> M02 {
    M02 {
        leaves: (0..i)
            .map(|j| (j * j, SumData::Blob(Blob { len: 9, fill: Fill::Random(j as u32) })))
            .collect(),
        audits: vec![i as u16 / 2],
        read_all: false,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FaultOp {
    Push(u64, SumData),
    Root,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct M03 {
    base: u16,
    ops: Vec<FaultOp>,
    other: (u64, Blob),
}

fn m03_gen() -> BoxedStrategy<M03> {
    let base = prop_oneof![
        4 => 0u16..20,
        2 => (1u16..8, 0u16..3).prop_map(|(k, d)| (1 << k) - d.min(1 << k)),
        1 => 20u16..140,
    ];
    let op = prop_oneof![
        5 => (fee(), sum_data()).prop_map(|(f, d)| FaultOp::Push(f, d)),
        2 => Just(FaultOp::Root),
    ];
    (base, prop::collection::vec(op, 1..5), (fee(), blob()))
        .prop_map(|(base, ops, other)| M03 { base, ops, other })
        .boxed()
}

struct World {
    t: SumTree,
    leaves: Vec<Leaf>,
    model: Vec<SumNode>,
}

impl World {
    fn note(&mut self, leaf: Leaf) {
        self.model.push(sum_leaf(leaf.0, &leaf.1));
        self.leaves.push(leaf);
    }

    fn push(&mut self, leaf: Leaf) -> R {
        if let Err(e) = self.t.push(leaf.0, &leaf.1) {
            return Err(format!("push {} failed on a sound storage: {e:?}", self.model.len()));
        }
        self.note(leaf);
        Ok(())
    }

    fn check(&mut self, what: &str) -> R {
        let n = self.model.len();
        let got = guarded(|| self.t.root());
        let Ok(Ok(got)) = &got else {
            return Err(format!("{what}: root of {n} leaves: {}", short(&got)));
        };
        let want = want(&self.model).unwrap();
        ensure_eq!(describe(got), describe(&want), "{what}: root of {n} leaves");
        Ok(())
    }

    fn build(c: &M03, upto: usize) -> Result<World, String> {
        let mut w = World { t: SumTree::new(), leaves: vec![], model: vec![] };
        for i in 0..c.base {
            w.push((i as u64, i.to_be_bytes().to_vec()))?;
        }
        for op in &c.ops[..upto] {
            match op {
                FaultOp::Push(f, d) => {
                    let l = resolve(&w.leaves, &w.model, *f, d);
                    w.push(l)?;
                }
                FaultOp::Root => w.check("before")?,
            }
        }
        Ok(w)
    }
}

fn reported<T: std::fmt::Debug>(r: &Result<Result<T, Boom>, String>, what: &str) -> R {
    match r {
        Ok(Err(Boom(_))) => Ok(()),
        Ok(Ok(_)) => Err(format!("{what}: a failed access went unreported")),
        Err(p) => Err(format!("{what}: {p}")),
    }
}

fn m03_check(c: &M03, ctx: &mut Ctx) -> R {
    for t in 0..c.ops.len() {
        for (m, &(after, repeat)) in MODES.iter().enumerate() {
            for at in 0.. {
                ensure!(at < 10_000, "an operation does not end");
                let mut w = World::build(c, t)?;
                let n = w.model.len();
                let ctl = w.t.ctl.clone();
                let plan = Plan { at, after, repeat };
                let what = format!("op {t} {:?} with {n} leaves, {plan:?}", c.ops[t]);
                match &c.ops[t] {
                    FaultOp::Root => {
                        ctl.arm(plan);
                        let r = guarded(|| w.t.root());
                        let fired = ctl.disarm();
                        w.check(&what)?;
                        if fired == 0 {
                            break;
                        }
                        reported(&r, &what)?;
                        ctx.label("failed root");
                        for i in 0..2u8 {
                            w.push((i as u64, vec![i]))?;
                            w.check(&what)?;
                        }
                    }
                    FaultOp::Push(f, d) => {
                        let leaf = resolve(&w.leaves, &w.model, *f, d);
                        ctl.arm(plan);
                        let r = guarded(|| w.t.push(leaf.0, &leaf.1));
                        let fired = ctl.disarm();
                        if fired == 0 {
                            ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                            break;
                        }
                        reported(&r, &what)?;
                        if repeat {
                            ctl.arm(Plan { at: 0, after, repeat });
                            let r = guarded(|| w.t.push(leaf.0, &leaf.1));
                            ctl.disarm();
                            reported(&r, &format!("{what}, second attempt"))?;
                            ctx.label("failed twice");
                        }
                        ctx.label("failed push");
                        ctx.label_if(at > 0, "failure part way through a push");
                        if (at as usize + m) % 3 != 2 {
                            w.check(&what)?;
                        }
                        let next = match (at as usize + m) % 2 {
                            0 => leaf,
                            _ => resolve(
                                &w.leaves,
                                &w.model,
                                c.other.0,
                                &SumData::Blob(c.other.1.clone()),
                            ),
                        };
                        w.push(next)?;
                        w.check(&what)?;
                        for i in 0..3u8 {
                            let l = resolve(
                                &w.leaves,
                                &w.model,
                                i as u64,
                                &SumData::Blob(Blob { len: 2, fill: Fill::Const(i) }),
                            );
                            w.push(l)?;
                            w.check(&what)?;
                        }
                        audit(&mut w.t, &w.model, ctx).map_err(|e| format!("{what}: {e}"))?;
                    }
                }
                ctx.compared += 1;
                ctx.nontrivial = true;
                ctx.label(match (after, repeat) {
                    (false, false) => "failed before taking effect",
                    (true, false) => "failed after taking effect",
                    _ => "kept failing",
                });
            }
        }
    }
    Ok(())
}

fn m03_size(i: u64) -> M03 {
    M03 {
        base: i as u16,
        ops: vec![
            FaultOp::Push(i, SumData::Blob(Blob { len: 3, fill: Fill::Random(i as u32) })),
            FaultOp::Root,
        ],
        other: (5, Blob { len: 1, fill: Fill::Zero }),
    }
}

/// A history during which several accesses fail, here and there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct M03Storm {
    base: u16,
    /// Operations with how often they are tried at most, until they succeed.
    ops: Vec<(FaultOp, u8)>,
    strikes: Vec<Strike>,
}

fn m03_storm_gen() -> BoxedStrategy<M03Storm> {
    let base = prop_oneof![
        4 => 0u16..20,
        2 => (1u16..8, 0u16..3).prop_map(|(k, d)| (1 << k) - d.min(1 << k)),
        1 => 20u16..140,
    ];
    let op = prop_oneof![
        5 => (fee(), sum_data()).prop_map(|(f, d)| FaultOp::Push(f, d)),
        2 => Just(FaultOp::Root),
    ];
    let n = prop_oneof![3 => 1usize..10, 2 => 1usize..60];
    (base, n.prop_flat_map(move |n| prop::collection::vec((op.clone(), 1u8..4), n)), strikes())
        .prop_map(|(base, ops, strikes)| M03Storm { base, ops, strikes })
        .boxed()
}

fn m03_storm_check(c: &M03Storm, ctx: &mut Ctx) -> R {
    let mut w = World { t: SumTree::new(), leaves: vec![], model: vec![] };
    for i in 0..c.base {
        w.push((i as u64, i.to_be_bytes().to_vec()))?;
    }
    let ctl = w.t.ctl.clone();
    ctl.storm(&c.strikes);
    let mut failures = 0;
    for (t, (op, attempts)) in c.ops.iter().enumerate() {
        for attempt in 0..*attempts {
            let before = ctl.fired();
            let n = w.model.len();
            let what = format!("op {t} {op:?}, attempt {attempt}, with {n} leaves after {failures} failures");
            let hurt = match op {
                FaultOp::Root => {
                    let r = guarded(|| w.t.root());
                    let f = ctl.fired() > before;
                    if f {
                        reported(&r, &what)?;
                        ctx.label("failed root");
                    } else {
                        let Ok(Ok(got)) = &r else {
                            return Err(format!("{what}: {}", short(&r)));
                        };
                        ensure_eq!(describe(got), describe(&want(&w.model).unwrap()), "{what}: root");
                    }
                    f
                }
                FaultOp::Push(f, d) => {
                    let leaf = resolve(&w.leaves, &w.model, *f, d);
                    let r = guarded(|| w.t.push(leaf.0, &leaf.1));
                    let f = ctl.fired() > before;
                    if f {
                        reported(&r, &what)?;
                        ctx.label("failed push");
                    } else {
                        ensure!(matches!(r, Ok(Ok(()))), "{what}: {}", short(&r));
                        w.note(leaf);
                    }
                    f
                }
            };
            failures += hurt as u32;
            ctx.compared += 1;
            // Reading the root writes records, so it is left out now and then.
            if t % 3 > 0 {
                let left = ctl.calm();
                w.check(&what)?;
                ctl.resume(left);
            }
            if !hurt {
                break;
            }
        }
    }
    ctl.calm();
    let what = format!("after {failures} failures");
    w.check(&what)?;
    audit(&mut w.t, &w.model, ctx).map_err(|e| format!("{what}: {e}"))?;
    for i in 0..2u8 {
        let l = resolve(&w.leaves, &w.model, i as u64, &SumData::Blob(Blob { len: 2, fill: Fill::Const(i) }));
        w.push(l)?;
        w.check(&what)?;
    }
    audit(&mut w.t, &w.model, ctx).map_err(|e| format!("{what}: {e}"))?;
    ctx.nontrivial = failures > 0;
    ctx.label_if(failures > 1, "several failures");
    ctx.label_if(failures > 5, "more than five failures");
    Ok(())
}

pub fn m03() -> Property {
    Property {
        id: "M03",
        subs: vec![
            sub("faults", "for each operation (push, root) of a random history, every storage access of it is made to fail in turn, before or after taking effect, once or from then on; then the root is checked, the operation repeated or replaced, and the tree grown; non-trivial: an access failed", 10_000, 110_000, m03_gen, m03_check),
            enumerate("sizes", "the same for the push and the root at n = 0, 1, 2, ... leaves", 300, 1_000, m03_size, m03_check),
            sub("storm", "a random history of pushes and root reads, repeated ones included, during which up to 11 bursts of accesses fail; the root compared after most operations, the storage walked at the end; non-trivial: an operation failed", 30_000, 350_000, m03_storm_gen, m03_storm_check),
        ],
    }
}
