//! D01: errors name their cause.

use crate::{ensure, text_of};
use crate::engine::{guarded, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::props::{binary, sparse, sum};
use crate::store::*;
use fuel_merkle::binary::MerkleTreeError as BinaryError;
use fuel_merkle::sparse::MerkleTreeError as SparseError;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// A storage failure in the midst of an operation.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    on: On,
    /// Which access fails, modulo how many the operation makes.
    at: u16,
    mode: u8,
    /// The number of the first error.
    salt: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum On {
    BinaryPush(u16),
    BinaryLoad(u16),
    BinaryProve(u16, u16),
    SparseLoad(sparse::Hist),
    Sparse(sparse::Hist, sparse::SOp),
    SumPush(u16),
    SumRoot(u16),
}

fn fault_gen() -> BoxedStrategy<Fault> {
    let n = || prop_oneof![3 => 0u16..20, 1 => 0u16..70];
    let on = prop_oneof![
        2 => n().prop_map(On::BinaryPush),
        1 => n().prop_map(On::BinaryLoad),
        2 => (n(), any::<u16>()).prop_map(|(n, i)| On::BinaryProve(n, i)),
        1 => sparse::small_hist().prop_map(On::SparseLoad),
        4 => (sparse::small_hist(), sparse::sop()).prop_map(|(h, o)| On::Sparse(h, o)),
        2 => n().prop_map(On::SumPush),
        2 => n().prop_map(On::SumRoot),
    ];
    (on, any::<u16>(), 0u8..4, wide_u64())
        .prop_map(|(on, at, mode, salt)| Fault { on, at, mode, salt: salt >> 1 })
        .boxed()
}

/// Runs the operation once to count its accesses, then again with a failure.
fn strike<T>(c: &Fault, mut make: impl FnMut() -> Result<T, String>, ctl: impl Fn(&T) -> &Ctl, mut run: impl FnMut(&mut T) -> Result<(), Named>, ctx: &mut Ctx) -> R {
    let mut t = make()?;
    ctl(&t).arm(Plan { at: u64::MAX, after: false, repeat: false });
    if let Err(e) = run(&mut t) {
        return Err(format!("failed on a sound storage: {e:?}"));
    }
    let total = ctl(&t).count();
    if total == 0 {
        return Ok(());
    }
    let (after, repeat) = binary::MODES[c.mode as usize % 4];
    let mut t = make()?;
    ctl(&t).salt.set(c.salt);
    ctl(&t).arm(Plan { at: c.at as u64 % total, after, repeat });
    let r = guarded(|| run(&mut t))?;
    let fired = ctl(&t).disarm();
    ensure!(fired > 0, "the operation made fewer accesses the second time");
    ctx.compared += 1;
    ctx.nontrivial = true;
    match r {
        Ok(()) => Err(format!("access {} of {total} failed and the operation succeeded", c.at as u64 % total)),
        Err((named, text)) => {
            let given = |x: &u64| (c.salt + 1..=c.salt + fired).contains(x);
            text_says(text, &short(&named), |t| numbers(t).iter().any(given))?;
            ensure!(
                named.iter().any(given),
                "access {} of {total} failed with error {}, the operation with {}",
                c.at as u64 % total,
                c.salt + 1,
                short(&named)
            );
            Ok(())
        }
    }
}

/// The numbers an error holds, and its text.
type Named = (Vec<u64>, Option<String>);

fn of_boom<T>(r: Result<T, Boom>) -> Result<(), Named> {
    r.map(|_| ()).map_err(|e| (vec![e.0], Some(e.to_string())))
}

fn of_binary<T>(r: Result<T, BinaryError<Boom>>) -> Result<(), Named> {
    r.map(|_| ()).map_err(|e| {
        let text = text_of!(&e);
        match e {
            BinaryError::StorageError(Boom(x)) => (vec![x], text),
            _ => (vec![], text),
        }
    })
}

fn of_sparse<T>(r: Result<T, SparseError<Boom>>) -> Result<(), Named> {
    r.map(|_| ()).map_err(|e| {
        let text = text_of!(&e);
        if let SparseError::StorageError(Boom(x)) = e {
            return (vec![x], text);
        }
        let debug = format!("{e:?}");
        (debug.split("Boom").skip(1).flat_map(|s| numbers(s).first().copied()).collect(), text)
    })
}

fn binary_world(n: u16) -> Result<binary::World, String> {
    let mut w = binary::World::new(Handle::new());
    for i in 0..n {
        w.push(&i.to_be_bytes())?;
    }
    Ok(w)
}

fn sparse_world(h: &sparse::Hist) -> Result<(sparse::World, Vec<[u8; 32]>), String> {
    let keys = resolve_keys(&h.keys);
    let mut w = sparse::World::new(Handle::new());
    for op in &h.ops {
        w.apply(op, &keys)?;
    }
    Ok((w, keys))
}

fn sum_world(n: u16) -> Result<sum::SumTree, String> {
    let mut t = sum::SumTree::new();
    for i in 0..n {
        t.push(i as u64, &i.to_be_bytes()).map_err(|e| format!("push {i}: {e:?}"))?;
    }
    Ok(t)
}

fn fault_check(c: &Fault, ctx: &mut Ctx) -> R {
    match &c.on {
        On::BinaryPush(n) => {
            ctx.label("binary push");
            strike(c, || binary_world(*n), |w| &w.h.ctl, |w| of_binary(w.tree.push(b"leaf")), ctx)
        }
        On::BinaryLoad(n) => {
            ctx.label("binary load");
            strike(c, || binary_world(*n), |w| &w.h.ctl, |w| of_binary(binary::BTree::load(w.h.clone(), *n as u64)), ctx)
        }
        On::BinaryProve(n, i) => {
            ctx.label("binary proof");
            let i = *i % (*n).max(1);
            strike(c, || binary_world(n.max(&1).to_owned()), |w| &w.h.ctl, |w| of_binary(w.tree.prove(i as u64)), ctx)
        }
        On::SparseLoad(h) => {
            ctx.label("sparse load");
            let run = |w: &mut (sparse::World, Vec<[u8; 32]>)| {
                let root = w.0.tree.root();
                of_sparse(sparse::STree::load(w.0.h.clone(), &root))
            };
            strike(c, || sparse_world(h), |w| &w.0.h.ctl, run, ctx)
        }
        On::Sparse(h, op) => {
            ctx.label("sparse update or delete");
            let run = |w: &mut (sparse::World, Vec<[u8; 32]>)| match sparse::resolve(op, &w.1) {
                None => Ok(()),
                Some((key, data)) => of_sparse(sparse::act(&mut w.0.tree, &key, data.as_deref())),
            };
            strike(c, || sparse_world(h), |w| &w.0.h.ctl, run, ctx)
        }
        On::SumPush(n) => {
            ctx.label("sum push");
            strike(c, || sum_world(*n), |t| &t.ctl, |t| of_boom(t.push(1, b"leaf")), ctx)
        }
        On::SumRoot(n) => {
            ctx.label("sum root");
            strike(c, || sum_world(*n), |t| &t.ctl, |t| of_boom(t.root()), ctx)
        }
    }
}

pub fn d01() -> Property {
    Property {
        id: "D01",
        subs: vec![
            sub("binary", "binary trees with lost records, loaded and proven: a load error must name a missing record that the answer needs, an invalid-index error the index; non-trivial: an operation was refused", 60_000, 1_200_000, binary::b05_gen, |c, x| binary::losses(c, x, true)),
            sub("sparse", "sparse trees with lost or undecodable records, then loads, updates and deletes: the error must name a damaged record on or beside the path, or its kind byte; non-trivial: an operation was refused", 15_000, 300_000, sparse::s07_gen, |c, x| sparse::damage(c, x, true)),
            sub("roots", "loads of roots that are not stored or not decodable: the error must name the root or the kind byte; non-trivial: the load was refused", 30_000, 300_000, sparse::bad_gen, |c, x| sparse::bad_load(c, x, true)),
            sub("failures", "one operation on a tree of any kind with an access (and, in half of the cases, all later ones) failing with a numbered error: the operation must report an error that the storage gave during it; non-trivial: an access failed", 80_000, 1_000_000, fault_gen, fault_check),
        ],
    }
}
