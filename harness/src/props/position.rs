//! P01, P02: positions and paths.

use crate::engine::{enumerate, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::props::binary::leaf_counts;
use crate::{ensure, ensure_eq};
use fuel_merkle::common::{AsPathIterator, Node, ParentNode, Position};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const TOP: u128 = u64::MAX as u128;

/// A node by coordinates, where its index is below u64::MAX.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct At {
    h: u32,
    o: u64,
}

fn at(i: u128) -> Position {
    Position::from_in_order_index(i as u64)
}

fn p01_gen() -> BoxedStrategy<At> {
    let h = prop_oneof![3 => 0u32..63, 1 => 0u32..4, 1 => 55u32..63, 1 => Just(63u32)];
    h.prop_flat_map(|h| {
        let row = if h == 63 { 1 } else { 1u64 << (63 - h) };
        let o = prop_oneof![
            1 => Just(0u64),
            3 => wide_u64().prop_map(move |x| x % row),
            1 => (0u64..6).prop_map(move |d| (row - 1).saturating_sub(d)),
            1 => (0u64..6).prop_map(move |d| (row / 2).saturating_sub(3).wrapping_add(d) % row),
            1 => any::<u64>().prop_map(move |x| x % row),
        ];
        o.prop_map(move |o| At { h, o })
    })
    .boxed()
}

fn p01_check(c: &At, ctx: &mut Ctx) -> R {
    let (h, o) = (c.h, c.o);
    let i = position(h, o);
    ensure!(i < TOP, "outside the domain");
    let p = at(i);
    ensure_eq!(p.in_order_index() as u128, i, "index");
    ensure_eq!(p.height(), h, "height of {i}");
    ensure_eq!(Node::height(&p), h, "height of {i}, node trait");
    ensure_eq!(p.is_leaf(), h == 0, "leaf kind of {i}");
    ensure_eq!(p.is_node(), h != 0, "node kind of {i}");
    ensure_eq!(Node::is_leaf(&p), h == 0, "leaf kind of {i}, node trait");
    ensure_eq!(Node::is_node(&p), h != 0, "node kind of {i}, node trait");
    ctx.compared += 7;
    if h == 0 {
        ensure_eq!(p.leaf_index(), o, "leaf index of {i}");
        ensure!(Position::from_leaf_index(o) == p, "position of leaf {o}");
        ensure_eq!(Node::leaf_key(&p), o.to_be_bytes(), "leaf key of {i}");
        ctx.compared += 3;
    } else {
        let (l, r) = (position(h - 1, 2 * o), position(h - 1, 2 * o + 1));
        ensure_eq!(p.left_child().in_order_index() as u128, l, "left child of {i}");
        ensure_eq!(p.right_child().in_order_index() as u128, r, "right child of {i}");
        ensure!(matches!(ParentNode::left_child(&p), Ok(x) if x == at(l)), "left child, trait");
        ensure!(matches!(ParentNode::right_child(&p), Ok(x) if x == at(r)), "right child, trait");
        for c in [at(l), at(r)] {
            ensure_eq!(c.parent().in_order_index() as u128, i, "parent of a child of {i}");
        }
        ensure!(at(l).sibling() == at(r), "sibling of the left child of {i}");
        ensure!(at(r).sibling() == at(l), "sibling of the right child of {i}");
        ctx.compared += 8;
    }
    // The sibling and parent are 64-bit indices whenever the row has more than one node.
    if h < 63 {
        let (s, q) = (position(h, o ^ 1), position(h + 1, o >> 1));
        if s < TOP {
            ensure_eq!(p.sibling().in_order_index() as u128, s, "sibling of {i}");
            ensure!(p.sibling().sibling() == p, "sibling of the sibling of {i}");
            ensure!(p.sibling().parent() == p.parent(), "parent of the sibling of {i}");
            ctx.compared += 3;
        }
        ensure_eq!(p.parent().in_order_index() as u128, q, "parent of {i}");
        ensure_eq!(p.parent().height(), h + 1, "height of the parent of {i}");
        ensure!(
            p.parent().left_child() == p || p.parent().right_child() == p,
            "{i} is no child of its parent"
        );
        ctx.compared += 3;
        if h < 62 {
            let u = position(h + 1, (o >> 1) ^ 1);
            ensure_eq!(p.uncle().in_order_index() as u128, u, "uncle of {i}");
            ensure!(p.uncle() == p.parent().sibling(), "uncle is not the parent's sibling");
            ctx.compared += 2;
        }
    }
    ctx.label_if(h == 0, "leaf");
    ctx.label_if(h > 0, "inner node");
    ctx.label_if(h >= 32, "height over 31");
    ctx.label_if(i >= 1 << 32, "index over 2^32");
    ctx.label_if(i >= 1 << 63, "index over 2^63");
    ctx.nontrivial_if(i > 20);
    Ok(())
}

fn p01_low(i: u64) -> At {
    let (h, o) = coordinates(i);
    At { h, o }
}

fn p01_high(i: u64) -> At {
    let (h, o) = coordinates(u64::MAX - 1 - i);
    At { h, o }
}

/// A plain index, taken apart by the oracle.
fn p01_any() -> BoxedStrategy<At> {
    wide_u64().prop_map(|i| p01_low(i.min(u64::MAX - 1))).boxed()
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        subs: vec![
            sub("coordinates", "nodes of every height and row offset with an index below u64::MAX: all relatives that exist are compared with the closed form in 128-bit arithmetic; non-trivial: index above 20", 8_000_000, 50_000_000, p01_gen, p01_check),
            sub("indices", "the same from 64-bit indices of every magnitude", 4_000_000, 30_000_000, p01_any, p01_check),
            enumerate("low", "every index from 0 upwards", 500_000, 4_000_000, p01_low, p01_check),
            enumerate("high", "every index from u64::MAX - 1 downwards", 300_000, 2_000_000, p01_high, p01_check),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Root {
    /// The root of the tree.
    Tree,
    /// This many levels above it, as far as there are any.
    Above(u32),
    /// The position of the tree's push root: the root for one more leaf.
    Next,
    /// The node this many levels down the path.
    Inner(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct P02 {
    n: u64,
    leaf: Leaf,
    root: Root,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Leaf {
    At(u64),
    FromEnd(u64),
}

fn p02_gen() -> BoxedStrategy<P02> {
    let leaf = prop_oneof![
        3 => wide_u64().prop_map(Leaf::At),
        2 => any::<u64>().prop_map(Leaf::At),
        3 => (0u64..5).prop_map(Leaf::FromEnd),
        2 => wide_u64().prop_map(Leaf::FromEnd),
    ];
    let root = prop_oneof![
        4 => Just(Root::Tree),
        2 => (0u32..63).prop_map(Root::Above),
        1 => Just(Root::Next),
        3 => (0u32..63).prop_map(Root::Inner),
    ];
    (leaf_counts().prop_map(|n| n.max(1)), leaf, root)
        .prop_map(|(n, leaf, root)| P02 { n, leaf, root })
        .boxed()
}

fn ceil_log2(n: u64) -> u32 {
    (0..64).find(|&h| 1u128 << h >= n as u128).unwrap()
}

fn p02_check(c: &P02, ctx: &mut Ctx) -> R {
    let n = c.n;
    let leaf = match c.leaf {
        Leaf::At(i) => i % n,
        Leaf::FromEnd(d) => n - 1 - d % n,
    };
    // The tree's nodes from the root to the leaf, each with its side node.
    let tree_root = range_position(0, n);
    let mut want = vec![(tree_root, tree_root)];
    for ((a, b), (x, y)) in path_ranges(n, leaf) {
        want.push((range_position(a, b), range_position(x, y)));
    }
    let height = ceil_log2(n);
    let root = match c.root {
        Root::Tree => tree_root,
        Root::Above(d) => position((height + d).min(63), 0),
        Root::Next => position(ceil_log2(n + 1).min(63), 0),
        Root::Inner(d) => {
            want = want.split_off(d as usize % want.len());
            let r = want[0].0;
            want[0] = (r, r);
            ctx.label_if(d > 0, "from an inner node");
            r
        }
    };
    ensure!(root < TOP, "outside the domain");
    let got: Vec<(u128, u128)> = at(root)
        .path(&Position::from_leaf_index(leaf), n)
        .iter()
        .take(200)
        .map(|(p, s)| (p.in_order_index() as u128, s.in_order_index() as u128))
        .collect();
    ensure!(
        got == want,
        "path from {root} to leaf {leaf} of {n}: got {}, expected {}",
        short(&got),
        short(&want)
    );
    ctx.compared += want.len() as u64;
    let complete = n.is_power_of_two();
    ctx.label_if(!complete, "incomplete tree");
    ctx.label_if(root > tree_root, "root above the tree");
    ctx.label_if(n > 1 << 32, "over 2^32 leaves");
    ctx.label_if(leaf + 1 == n, "rightmost leaf");
    ctx.nontrivial_if(n > 2);
    Ok(())
}

fn p02_small(i: u64) -> P02 {
    // Enumerates (n, leaf, root kind): n leaves take 6n cases.
    let mut i = i;
    let mut n = 1u64;
    while i >= 6 * n {
        i -= 6 * n;
        n += 1;
    }
    let root = match i % 6 {
        0 => Root::Tree,
        1 => Root::Next,
        2 => Root::Above((i / 6 % 5) as u32 + 1),
        k => Root::Inner(k as u32 - 2),
    };
    P02 { n, leaf: Leaf::At(i / 6), root }
}

/// The plain descent in a perfect tree.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Descent {
    root: At,
    leaf: u64,
}

fn descent_gen() -> BoxedStrategy<Descent> {
    (p01_gen(), wide_u64()).prop_map(|(root, leaf)| Descent { root, leaf }).boxed()
}

fn descent_check(c: &Descent, ctx: &mut Ctx) -> R {
    let (mut h, mut o) = (c.root.h, c.root.o);
    let below = if h == 0 { 0 } else { c.leaf & ((1u64 << h) - 1) };
    let leaf = (o << h) | below;
    let mut want = vec![(position(h, o), position(h, o))];
    while h > 0 {
        h -= 1;
        o = leaf >> h;
        want.push((position(h, o), position(h, o ^ 1)));
    }
    // A side node at u64::MAX does not exist; the row of height 64 is outside the domain.
    let root = at(want[0].0);
    let target = Position::from_leaf_index(leaf);
    let mut got = Vec::new();
    for (p, s) in root.as_path_iter(&target).take(200) {
        match (p, s) {
            (Ok(p), Ok(s)) => got.push((p.in_order_index() as u128, s.in_order_index() as u128)),
            other => return Err(format!("descent to leaf {leaf}: {other:?}")),
        }
    }
    ensure!(
        got == want,
        "descent from {} to leaf {leaf}: got {}, expected {}",
        want[0].0,
        short(&got),
        short(&want)
    );
    ctx.compared += want.len() as u64;
    ctx.label_if(want.len() > 32, "over 32 levels");
    ctx.label_if(leaf > 1 << 32, "leaf over 2^32");
    ctx.nontrivial_if(want.len() > 2);
    Ok(())
}

pub fn p02() -> Property {
    Property {
        id: "P02",
        subs: vec![
            sub("paths", "paths for leaf counts of every magnitude up to 2^63 - 1, leaves anywhere, starting at the tree's root, above it, or at a node of the path, against the recursive definition of the tree; non-trivial: over 2 leaves", 3_000_000, 30_000_000, p02_gen, p02_check),
            enumerate("small", "every leaf of every tree of 1, 2, 3, ... leaves from six kinds of root; non-trivial: over 2 leaves", 1_000_000, 4_000_000, p02_small, p02_check),
            sub("descents", "the plain descent from nodes of every height to leaves below them; non-trivial: over 2 levels", 3_000_000, 30_000_000, descent_gen, descent_check),
        ],
    }
}
