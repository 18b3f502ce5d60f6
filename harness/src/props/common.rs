//! C01: the bundled storage map.

use crate::engine::{enumerate, sub, Ctx, Property, R};
use crate::ensure_eq;
use crate::gen::*;
use crate::oracle::B32;
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{
    Mappable, StorageInspect, StorageInspectInfallible, StorageMutate, StorageMutateInfallible,
};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A key whose hash says almost nothing about it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Collide(Vec<u8>);

impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0.first().map_or(0, |b| b & 1));
    }
}

/// A stored form that keeps how it was made.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Kept(u16, String);

#[derive(Clone, Debug)]
pub struct Given(u16);

impl From<Given> for Kept {
    fn from(g: Given) -> Self {
        Kept(g.0 ^ 0x5a5a, format!("kept {}", g.0))
    }
}

/// How a table's keys and values are made from generated numbers.
pub trait Table: Mappable + Sized {
    fn key(k: u64) -> Self::Key;
    fn value(v: u64) -> Self::SetValue;
    fn stored(v: u64) -> Self::GetValue;
}

macro_rules! table {
    ($name:ident, $k:ty, $s:ty, $g:ty, |$kv:ident| $ke:expr, |$vv:ident| $ve:expr, |$sv:ident| $se:expr) => {
        pub struct $name;
        impl Mappable for $name {
            type Key = $k;
            type SetValue = $s;
            type GetValue = $g;
        }
        impl Table for $name {
            fn key($kv: u64) -> $k {
                $ke
            }
            fn value($vv: u64) -> $s {
                $ve
            }
            fn stored($sv: u64) -> $g {
                $se
            }
        }
    };
}

fn wide(k: u64) -> B32 {
    // Small numbers give keys that differ in one place only.
    let mut b = [0; 32];
    match k % 3 {
        0 => b[24..].copy_from_slice(&k.to_be_bytes()),
        1 => b[..8].copy_from_slice(&k.to_be_bytes()),
        _ => b.copy_from_slice(&expand(k as u32, 32)),
    }
    b
}

table!(Numbers, u64, u64, u64, |k| k, |v| v, |v| v);
table!(Nodes, u64, (u64, B32), (u64, B32), |k| k, |v| (v, wide(v)), |v| (v, wide(v)));
table!(Sparse, B32, (u32, u8, B32, B32), (u32, u8, B32, B32), |k| wide(k),
    |v| (v as u32, v as u8, wide(v), wide(v + 1)), |v| (v as u32, v as u8, wide(v), wide(v + 1)));
table!(Widened, u32, u32, u64, |k| k as u32, |v| v as u32, |v| v as u32 as u64);
table!(Converted, B32, Given, Kept, |k| wide(k), |v| Given(v as u16),
    |v| Kept(v as u16 ^ 0x5a5a, format!("kept {}", v as u16)));
table!(Owned, String, [u8; 4], Vec<u8>, |k| format!("key {k}"), |v| (v as u32).to_be_bytes(),
    |v| (v as u32).to_be_bytes().to_vec());
table!(Colliding, Collide, u8, u16, |k| Collide(k.to_le_bytes().to_vec()), |v| v as u8,
    |v| v as u8 as u16);
table!(Unit, (), u8, u8, |_k| (), |v| v as u8, |v| v as u8);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum How {
    /// On the map.
    Direct,
    /// Through a mutable reference.
    Reference,
    /// Through a reference to a reference.
    Nested,
    /// With the infallible traits.
    Infallible,
    /// With the infallible traits, through a mutable reference.
    InfallibleReference,
    /// Through a trait object.
    Dynamic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum What {
    Insert(u64),
    Remove,
    Get,
    Contains,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    map: bool,
    key: u64,
    how: How,
    what: What,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Kind {
    Numbers,
    Nodes,
    Sparse,
    Widened,
    Converted,
    Owned,
    Colliding,
    Unit,
}

const KINDS: [Kind; 8] = [
    Kind::Numbers,
    Kind::Nodes,
    Kind::Sparse,
    Kind::Widened,
    Kind::Converted,
    Kind::Owned,
    Kind::Colliding,
    Kind::Unit,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C01 {
    kind: Kind,
    /// Whether the maps are made by `new` or by `default`.
    default: bool,
    ops: Vec<Op>,
}

fn c01_gen() -> BoxedStrategy<C01> {
    let how = select(vec![
        How::Direct,
        How::Reference,
        How::Nested,
        How::Infallible,
        How::InfallibleReference,
        How::Dynamic,
    ]);
    let key = prop_oneof![
        6 => 0u64..6,
        2 => 0u64..40,
        1 => wide_u64(),
        1 => (0u64..6).prop_map(|k| k << 32),
    ];
    let what = prop_oneof![
        5 => prop_oneof![3 => 0u64..4, 1 => any::<u32>().prop_map(u64::from)].prop_map(What::Insert),
        3 => Just(What::Remove),
        3 => Just(What::Get),
        2 => Just(What::Contains),
    ];
    let op = (prop::bool::weighted(0.2), key, how, what)
        .prop_map(|(map, key, how, what)| Op { map, key, how, what });
    let len = prop_oneof![6 => 0usize..20, 3 => 20usize..80, 1 => 80usize..400];
    (select(KINDS.to_vec()), any::<bool>(), len)
        .prop_flat_map(move |(kind, default, len)| {
            prop::collection::vec(op.clone(), len)
                .prop_map(move |ops| C01 { kind, default, ops })
        })
        .boxed()
}

type Answer<T> = (Option<<T as Mappable>::GetValue>, Option<bool>);

fn fallible<T: Table, S: ?Sized>(s: &mut S, k: &T::Key, what: What) -> Answer<T>
where
    S: StorageMutate<T, Error = Infallible>,
    T::SetValue: Sized,
    T::GetValue: Clone,
{
    match what {
        What::Insert(v) => match StorageMutate::insert(s, k, &T::value(v)) {
            Ok(old) => (old, None),
            Err(e) => match e {},
        },
        What::Remove => match StorageMutate::remove(s, k) {
            Ok(old) => (old, None),
            Err(e) => match e {},
        },
        What::Get => match StorageInspect::get(s, k) {
            Ok(v) => (v.map(|v| v.into_owned()), None),
            Err(e) => match e {},
        },
        What::Contains => match StorageInspect::contains_key(s, k) {
            Ok(b) => (None, Some(b)),
            Err(e) => match e {},
        },
    }
}

fn infallible<T: Table, S>(s: &mut S, k: &T::Key, what: What) -> Answer<T>
where
    S: StorageMutateInfallible<T> + StorageInspectInfallible<T>,
    T::SetValue: Sized,
    T::GetValue: Clone,
{
    match what {
        What::Insert(v) => (StorageMutateInfallible::insert(s, k, &T::value(v)), None),
        What::Remove => (StorageMutateInfallible::remove(s, k), None),
        What::Get => (StorageInspectInfallible::get(s, k).map(|v| v.into_owned()), None),
        What::Contains => (None, Some(StorageInspectInfallible::contains_key(s, k))),
    }
}

fn run<T: Table>(c: &C01, ctx: &mut Ctx) -> R
where
    T::Key: Eq + Hash + Clone + Ord,
    T::SetValue: Clone,
    T::GetValue: Clone + From<T::SetValue> + PartialEq + Debug,
{
    let make = || if c.default { StorageMap::<T>::default() } else { StorageMap::<T>::new() };
    let mut maps = [make(), make()];
    let mut models: [BTreeMap<T::Key, T::GetValue>; 2] = Default::default();
    for (i, op) in c.ops.iter().enumerate() {
        let key = T::key(op.key);
        let m = &mut maps[op.map as usize];
        let got: Answer<T> = match op.how {
            How::Direct => fallible::<T, _>(m, &key, op.what),
            How::Dynamic => {
                fallible::<T, dyn StorageMutate<T, Error = Infallible>>(m, &key, op.what)
            }
            How::Reference => fallible::<T, &mut StorageMap<T>>(&mut &mut *m, &key, op.what),
            How::Nested => {
                let mut r = m;
                fallible::<T, &mut &mut StorageMap<T>>(&mut &mut r, &key, op.what)
            }
            How::Infallible => infallible::<T, _>(m, &key, op.what),
            How::InfallibleReference => {
                infallible::<T, &mut StorageMap<T>>(&mut &mut *m, &key, op.what)
            }
        };
        let model = &mut models[op.map as usize];
        let present = model.contains_key(&key);
        let want: Answer<T> = match op.what {
            What::Insert(v) => (model.insert(key, T::stored(v)), None),
            What::Remove => (model.remove(&key), None),
            What::Get => (model.get(&key).cloned(), None),
            What::Contains => (None, Some(present)),
        };
        ensure_eq!(got, want, "operation {i} {op:?} on a map of {:?}", c.kind);
        ctx.compared += 1;
        ctx.nontrivial_if(present);
        match op.what {
            What::Insert(_) => ctx.label_if(present, "overwrite"),
            What::Remove => {
                ctx.label_if(present, "remove present");
                ctx.label_if(!present, "remove absent");
            }
            _ => ctx.label_if(present, "found"),
        }
    }
    // In the end the maps hold exactly what the models hold, seen through shared references.
    for (m, model) in maps.iter().zip(&models) {
        for op in &c.ops {
            let k = T::key(op.key);
            let got = StorageInspect::get(m, &k).unwrap().map(|v| v.into_owned());
            ensure_eq!(got, model.get(&k).cloned(), "final look-up of key {}", op.key);
            let by_ref = StorageInspect::get(&m, &k).unwrap().map(|v| v.into_owned());
            ensure_eq!(by_ref, got, "look-up through a shared reference, key {}", op.key);
            let has = StorageInspect::contains_key(&m, &k).unwrap();
            ensure_eq!(has, got.is_some(), "final presence of key {}", op.key);
        }
    }
    Ok(())
}

fn c01_check(c: &C01, ctx: &mut Ctx) -> R {
    match c.kind {
        Kind::Numbers => run::<Numbers>(c, ctx),
        Kind::Nodes => run::<Nodes>(c, ctx),
        Kind::Sparse => run::<Sparse>(c, ctx),
        Kind::Widened => run::<Widened>(c, ctx),
        Kind::Converted => run::<Converted>(c, ctx),
        Kind::Owned => run::<Owned>(c, ctx),
        Kind::Colliding => run::<Colliding>(c, ctx),
        Kind::Unit => run::<Unit>(c, ctx),
    }
}

// ---------------------------------------------------------------- many entries

/// A stretch of operations on neighbouring keys: `count` keys from `from`, every `step`th.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stretch {
    from: u32,
    count: u32,
    step: u8,
    /// The value inserted; nothing: the keys are removed.
    insert: Option<u8>,
    by_reference: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    nodes: bool,
    stretches: Vec<Stretch>,
}

fn bulk_gen() -> BoxedStrategy<Bulk> {
    let count = prop_oneof![3 => 1u32..400, 2 => 400u32..4_000, 1 => 4_000u32..12_000];
    let from = prop_oneof![2 => Just(0u32), 2 => 0u32..12_000, 1 => any::<u32>()];
    let insert = prop::option::weighted(0.65, any::<u8>());
    let stretch = (from, count, 1u8..5, insert, any::<bool>())
        .prop_map(|(from, count, step, insert, by_reference)| Stretch { from, count, step, insert, by_reference });
    (any::<bool>(), prop::collection::vec(stretch, 1..8))
        .prop_map(|(nodes, stretches)| Bulk { nodes, stretches })
        .boxed()
}

fn big_bulk(i: u64) -> Bulk {
    let n = [150_000, 600_000, 2_500_000][i as usize % 3];
    let part = |from, count, step, insert| Stretch { from, count, step, insert, by_reference: i % 2 == 1 };
    Bulk {
        nodes: i % 2 == 0,
        stretches: vec![part(0, n, 1, Some(1)), part(0, n / 2, 2, None), part(1, n / 3, 3, Some(2)), part(n / 2, n / 2, 1, None), part(n, n / 4, 1, Some(3))],
    }
}

fn bulk<T: Table>(c: &Bulk, ctx: &mut Ctx) -> R
where
    T::Key: Eq + Hash + Clone + Ord,
    T::SetValue: Clone,
    T::GetValue: Clone + From<T::SetValue> + PartialEq + Debug,
{
    let mut map = StorageMap::<T>::new();
    let mut model = BTreeMap::<u64, u64>::new();
    let stored = |v: Option<u64>| v.map(T::stored);
    for (i, s) in c.stretches.iter().enumerate() {
        for j in 0..s.count as u64 {
            let k = s.from as u64 + j * s.step.max(1) as u64;
            let key = T::key(k);
            let mut by_ref = &mut map;
            let (got, want) = match s.insert {
                Some(v) => {
                    let v = v as u64 + k % 7;
                    let got = match s.by_reference {
                        true => StorageMutate::<T>::insert(&mut by_ref, &key, &T::value(v)),
                        false => StorageMutate::<T>::insert(&mut map, &key, &T::value(v)),
                    };
                    (got, model.insert(k, v))
                }
                None => {
                    let got = match s.by_reference {
                        true => StorageMutate::<T>::remove(&mut by_ref, &key),
                        false => StorageMutate::<T>::remove(&mut map, &key),
                    };
                    (got, model.remove(&k))
                }
            };
            let got = match got {
                Ok(got) => got,
                Err(e) => match e {},
            };
            ensure_eq!(got, stored(want), "stretch {i}, key {k}, {} entries", model.len());
        }
        // Every key that was ever touched.
        for t in &c.stretches[..=i] {
            for j in 0..t.count as u64 {
                let k = t.from as u64 + j * t.step.max(1) as u64;
                let key = T::key(k);
                let want = model.get(&k);
                let got = StorageInspect::<T>::get(&map, &key).unwrap().map(|v| v.into_owned());
                ensure_eq!(got, stored(want.copied()), "look-up of key {k} after stretch {i}, {} entries", model.len());
                let has = StorageInspect::<T>::contains_key(&map, &key).unwrap();
                ensure_eq!(has, want.is_some(), "presence of key {k} after stretch {i}, {} entries", model.len());
                ctx.compared += 1;
            }
        }
        ctx.nontrivial_if(model.len() > 1000);
        ctx.label_if(model.len() > 10_000, "over 10,000 entries");
    }
    Ok(())
}

fn bulk_check(c: &Bulk, ctx: &mut Ctx) -> R {
    match c.nodes {
        true => bulk::<Nodes>(c, ctx),
        false => bulk::<Numbers>(c, ctx),
    }
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        subs: vec![
            sub("history", "random inserts, removes and look-ups on two maps over few keys, through six kinds of access and eight kinds of table (stored and returned forms differing, colliding key hashes, a single key), each answer compared with a mathematical map; non-trivial: an operation met a present key", 1_200_000, 14_000_000, c01_gen, c01_check),
            sub("bulk", "random stretches of inserts and removes of up to 12,000 neighbouring keys each, every answer and after each stretch every key touched so far compared with a mathematical map; non-trivial: over 1000 entries", 400, 5_000, bulk_gen, bulk_check),
            enumerate("bulk-large", "filling, thinning and refilling maps of 150,000 and 600,000 (thorough: 2,500,000) entries", 2, 3, big_bulk, bulk_check),
        ],
    }
}
