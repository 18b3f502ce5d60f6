//! E01: operations touch few records.

use crate::ensure;
use crate::engine::{enumerate, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::props::{binary, sparse, sum};
use crate::store::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Accesses allowed to an operation whose answer is made of `nodes` nodes.
fn bound(nodes: u64) -> u64 {
    4 * (nodes + 3)
}

fn bits(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

fn within(ctl: &Ctl, before: u64, nodes: u64, what: &str, ctx: &mut Ctx) -> R {
    let used = ctl.accesses() - before;
    ctx.compared += 1;
    ensure!(used <= bound(nodes), "{what} made {used} storage accesses, {nodes} nodes are concerned");
    Ok(())
}

// ---------------------------------------------------------------- binary and sum

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Row {
    n: u32,
    /// Leaf counts to load, and indices to prove in each.
    loads: Vec<(u32, Vec<u32>)>,
}

fn row_gen() -> BoxedStrategy<Row> {
    let n = prop_oneof![3 => 200u32..700, 2 => 700u32..2500, 1 => 0u32..200];
    let load = (any::<u32>(), prop::collection::vec(any::<u32>(), 0..4));
    (n, prop::collection::vec(load, 0..5)).prop_map(|(n, loads)| Row { n, loads }).boxed()
}

fn big_row(i: u64) -> Row {
    let n = [30_000, 65_535, 65_537, 131_072, 262_145, 500_001][i as usize % 6];
    let all: Vec<u32> = (0..8).map(|j| n / 7 * j + j % 3).collect();
    Row { n, loads: vec![(0, all.clone()), (1, all.clone()), (n / 3, all.clone()), (n / 2 + 1, all)] }
}

fn binary_check(c: &Row, ctx: &mut Ctx) -> R {
    let mut w = binary::World::new(Handle::new());
    let ctl = w.h.ctl.clone();
    let proofs = |t: &binary::BTree, n: u64, wanted: &[u32], ctx: &mut Ctx| {
        let before = ctl.accesses();
        t.root();
        within(&ctl, before, bits(n), &format!("root of {n} leaves"), ctx)?;
        for i in wanted {
            let i = *i as u64 % n.max(1);
            let before = ctl.accesses();
            if t.prove(i).is_err() && i < n {
                return Err(format!("no proof of {i} of {n}"));
            }
            within(&ctl, before, bits(n), &format!("proof of {i} of {n} leaves"), ctx)?;
        }
        Ok(())
    };
    for i in 0..c.n {
        let before = w.h.ctl.accesses();
        w.tree.push(&i.to_be_bytes()).map_err(|e| format!("push {i}: {e:?}"))?;
        within(&w.h.ctl, before, bits(i as u64), &format!("push onto {i} leaves"), ctx)?;
    }
    let n = c.n as u64;
    proofs(&w.tree, n, &[0, 1, c.n / 2, c.n.saturating_sub(1)], ctx)?;
    for (back, wanted) in &c.loads {
        let k = n - *back as u64 % (n + 1);
        let before = w.h.ctl.accesses();
        let t = binary::BTree::load(w.h.clone(), k).map_err(|e| format!("load at {k} of {n}: {e:?}"))?;
        within(&w.h.ctl, before, bits(k), &format!("load of {k} leaves"), ctx)?;
        proofs(&t, k, wanted, ctx)?;
    }
    ctx.nontrivial_if(n > bound(bits(n)));
    Ok(())
}

fn sum_check(c: &Row, ctx: &mut Ctx) -> R {
    let mut t = sum::SumTree::new();
    for i in 0..c.n {
        let before = t.ctl.accesses();
        t.push(1, &i.to_be_bytes()).map_err(|e| format!("push {i}: {e:?}"))?;
        within(&t.ctl, before, bits(i as u64), &format!("push onto {i} leaves"), ctx)?;
        if i.count_ones() < 3 || i % 37 == 0 || i + 1 == c.n {
            let before = t.ctl.accesses();
            t.root().map_err(|e| format!("root: {e:?}"))?;
            within(&t.ctl, before, bits(i as u64 + 1), &format!("root of {} leaves", i + 1), ctx)?;
        }
    }
    ctx.nontrivial_if(c.n as u64 > bound(bits(c.n as u64)));
    Ok(())
}

// ---------------------------------------------------------------- sparse

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    /// Hashed keys that fill the tree.
    fill: u16,
    keys: Vec<KeySpec>,
    ops: Vec<sparse::SOp>,
    /// Delete every entry at the end.
    clear: bool,
}

fn wide_gen() -> BoxedStrategy<Wide> {
    let fill = prop_oneof![4 => 300u16..900, 1 => 900u16..4000, 1 => 0u16..300];
    (fill, key_pool(12), prop::collection::vec(sparse::sop(), 1..40), prop::bool::weighted(0.2))
        .prop_map(|(fill, keys, ops, clear)| Wide { fill, keys, ops, clear })
        .boxed()
}

fn sparse_check(c: &Wide, ctx: &mut Ctx) -> R {
    let keys = resolve_keys(&c.keys);
    let h = sparse::SHandle::new();
    let ctl = h.ctl.clone();
    let mut tree = sparse::STree::new(h.clone());
    let mut model = RefTrie::default();
    let filler = |i: u16| sha(&[b"fill", &i.to_be_bytes()]);
    let mut step = |tree: &mut sparse::STree, key: &B32, data: Option<&[u8]>, ctx: &mut Ctx| {
        let old = model.path(key).len() as u64;
        let before = ctl.accesses();
        sparse::act(tree, key, data).map_err(|e| format!("operation failed: {e:?}"))?;
        model.update(key, data.unwrap_or_default());
        let new = model.path(key).len() as u64;
        // The old path, its sides, the new path.
        within(&ctl, before, 2 * old + new, if data.is_some() { "an update" } else { "a delete" }, ctx)
    };
    for i in 0..c.fill {
        step(&mut tree, &filler(i), Some(b"filler"), ctx)?;
    }
    let mut fail = Ok(());
    for op in &c.ops {
        match sparse::resolve(op, &keys) {
            Some((key, data)) => step(&mut tree, &key, data.as_deref(), ctx)?,
            None => {
                let root = tree.root();
                let before = h.ctl.accesses();
                tree = sparse::STree::load(h.clone(), &root).map_err(|e| format!("load: {e:?}"))?;
                fail = within(&h.ctl, before, 1, "a load", ctx);
            }
        }
        if fail.is_err() {
            return fail;
        }
    }
    if c.clear {
        ctx.label("taken down");
        for i in 0..c.fill {
            step(&mut tree, &filler(i), None, ctx)?;
        }
    }
    ctx.nontrivial_if(c.fill >= 300);
    Ok(())
}

/// Keys that leave one path at many depths: every node on it has a sibling.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comb {
    base: u64,
    /// One of so many depths (256 at most) has a tooth.
    step: u8,
    depth: u16,
    /// Bits of the path flipped for each operation (256: none), and whether it deletes.
    ops: Vec<(u16, bool)>,
}

fn comb_gen() -> BoxedStrategy<Comb> {
    let op = (prop_oneof![1 => Just(256u16), 2 => 0u16..256, 1 => 240u16..256], any::<bool>());
    (any::<u64>(), prop_oneof![3 => Just(1u8), 1 => 2u8..9], prop_oneof![2 => Just(256u16), 1 => 40u16..256], prop::collection::vec(op, 1..16))
        .prop_map(|(base, step, depth, ops)| Comb { base, step, depth, ops })
        .boxed()
}

fn comb_check(c: &Comb, ctx: &mut Ctx) -> R {
    let base = sha(&[b"comb", &c.base.to_be_bytes()]);
    let tooth = |i: u16| {
        let mut k = base;
        if i < 256 {
            k[i as usize / 8] ^= 0x80 >> (i % 8);
        }
        k
    };
    let h = sparse::SHandle::new();
    let mut tree = sparse::STree::new(h.clone());
    let mut model = RefTrie::default();
    let mut wanted: Vec<(B32, bool)> = (0..c.depth).step_by(c.step.max(1) as usize).map(|i| (tooth(i), false)).collect();
    wanted.extend(c.ops.iter().map(|(i, delete)| (tooth(*i), *delete)));
    for (key, delete) in wanted {
        let data: Option<&[u8]> = if delete { None } else { Some(b"tooth") };
        let old = model.path(&key).len() as u64;
        let before = h.ctl.accesses();
        sparse::act(&mut tree, &key, data).map_err(|e| format!("operation failed: {e:?}"))?;
        model.update(&key, data.unwrap_or_default());
        let new = model.path(&key).len() as u64;
        within(&h.ctl, before, 2 * old + new, if delete { "a delete" } else { "an update" }, ctx)?;
        ctx.nontrivial_if(old >= 100);
    }
    Ok(())
}

fn big_wide(i: u64) -> Wide {
    Wide { fill: [10_000, 20_000, 40_000, 65_535][i as usize % 4], keys: vec![KeySpec::Hashed(1)], ops: vec![sparse::SOp::Reload], clear: i % 2 == 1 }
}

pub fn e01() -> Property {
    Property {
        id: "E01",
        subs: vec![
            sub("binary", "storage accesses of every push, root, load and proof of trees of up to 2500 leaves, bounded by four times the tree's depth plus 12; non-trivial: visiting every leaf would exceed the bound", 4_000, 12_000, row_gen, binary_check),
            enumerate("binary-large", "the same for trees of up to 65,537 (thorough: 500,001) leaves", 3, 6, big_row, binary_check),
            sub("sum", "the same for pushes and roots of sum trees", 4_000, 12_000, row_gen, sum_check),
            enumerate("sum-large", "the same for sum trees of up to 65,537 (thorough: 500,001) leaves", 3, 6, big_row, sum_check),
            sub("sparse", "storage accesses of every update, delete and load of sparse trees of up to 4000 entries, bounded by four times (twice the old path plus the new path of the key) plus 12; non-trivial: 300 or more entries", 600, 8_000, wide_gen, sparse_check),
            sub("sparse-deep", "the same for trees in which the nodes of one path have siblings at every, or every few, of up to 256 depths; non-trivial: a path of 100 nodes or more", 500, 8_000, comb_gen, comb_check),
            enumerate("sparse-large", "the same for trees of up to 20,000 (thorough: 65,535) entries", 2, 4, big_wide, sparse_check),
        ],
    }
}
