//! H01, H02: the proof verifier and the fixture runner of the test-helper library.

use crate::engine::{enumerate, guarded, short, sub, Ctx, Property, R};
use crate::gen::*;
use crate::oracle::*;
use crate::props::binary::{data, idx, Data, Idx, World};
use crate::store::Handle;
use crate::{ensure, ensure_eq};
use fuel_merkle_test_helpers::binary::{verify, MerkleTree};
use fuel_merkle_test_helpers::data as fixtures;
use fuel_merkle_test_helpers::data::{EncodedValue, TestError};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

// ---------------------------------------------------------------- H01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Leaves {
    Each(Vec<Data>),
    /// The same leaf `n` times.
    Equal(u16),
    Counted(u16),
}

/// One change to a proof of length `m`.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    FlipRoot(u8),
    ReplaceRoot(Blob),
    FlipElement(u8, u8),
    /// Puts another hash of the same tree in an element's place.
    OtherNode(u8, u16),
    ReplaceElement(u8, Blob),
    Remove(u8),
    Insert(u8, Blob),
    /// Inserts a copy of an element.
    Duplicate(u8, u8),
    /// Inserts another hash of the same tree.
    InsertNode(u8, u16),
    /// Exchanges two elements.
    Exchange(u8, u8),
    Truncate(u8),
    Empty,
    Index(Idx),
    IndexLeaves(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct H01 {
    leaves: Leaves,
    proofs: Vec<Idx>,
    tampers: Vec<(u16, Tamper)>,
}

fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        1 => any::<u8>().prop_map(Tamper::FlipRoot),
        1 => blob().prop_map(Tamper::ReplaceRoot),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(e, b)| Tamper::FlipElement(e, b)),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(e, b)| Tamper::OtherNode(e, b)),
        1 => (any::<u8>(), blob()).prop_map(|(e, b)| Tamper::ReplaceElement(e, b)),
        3 => any::<u8>().prop_map(Tamper::Remove),
        1 => (any::<u8>(), blob()).prop_map(|(e, b)| Tamper::Insert(e, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(e, b)| Tamper::Duplicate(e, b)),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(e, b)| Tamper::InsertNode(e, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(e, b)| Tamper::Exchange(e, b)),
        1 => any::<u8>().prop_map(Tamper::Truncate),
        1 => Just(Tamper::Empty),
        2 => prop_oneof![
            (0u64..4).prop_map(Idx::Past),
            (any::<u64>(), 0u8..64).prop_map(|(i, k)| Idx::Alias(i, k)),
            (0u64..4).prop_map(Idx::FromMax),
            wide_u64().prop_map(Idx::Abs),
        ].prop_map(Tamper::Index),
    ]
    .boxed()
}

fn h01_gen() -> BoxedStrategy<H01> {
    let leaves = prop_oneof![
        4 => prop::collection::vec(data(), 0..24).prop_map(Leaves::Each),
        1 => prop::collection::vec(data(), 0..80).prop_map(Leaves::Each),
        1 => (0u16..70).prop_map(Leaves::Equal),
        1 => (0u16..600).prop_map(Leaves::Counted),
    ];
    (
        leaves,
        prop::collection::vec(idx(), 1..4),
        prop::collection::vec((any::<u16>(), tamper()), 0..8),
    )
        .prop_map(|(leaves, proofs, tampers)| H01 { leaves, proofs, tampers })
        .boxed()
}

fn pad(b: &Blob) -> B32 {
    let mut v = b.bytes();
    v.resize(32, 0);
    v.truncate(32);
    v.try_into().unwrap()
}

/// A proof after one change; `None` if the change leaves everything as it was.
struct Altered {
    root: B32,
    proof: Vec<B32>,
    index: u64,
    what: String,
}

fn alter(model: &RefBinary, i: u64, t: &Tamper) -> Option<Altered> {
    let node = |k: u16| {
        let all: Vec<B32> = model.layout().into_values().map(|(_, h)| h).collect();
        all[k as usize % all.len()]
    };
    alter_proof(model.len(), i, &model.root(), &model.proof(i), node, t)
}

/// `node` gives some other node of the tree.
fn alter_proof(n: u64, i: u64, root: &B32, genuine: &[B32], node: impl Fn(u16) -> B32, t: &Tamper) -> Option<Altered> {
    let m = genuine.len();
    let mut a = Altered { root: *root, proof: genuine.to_vec(), index: i, what: String::new() };
    match t {
        Tamper::FlipRoot(b) => flip_bit(&mut a.root, *b as usize),
        Tamper::ReplaceRoot(b) => a.root = pad(b),
        Tamper::FlipElement(e, b) => flip_bit(&mut a.proof[*e as usize % m], *b as usize),
        Tamper::OtherNode(e, k) => a.proof[*e as usize % m] = node(*k),
        Tamper::ReplaceElement(e, b) => a.proof[*e as usize % m] = pad(b),
        Tamper::Remove(e) => {
            a.proof.remove(*e as usize % m);
        }
        Tamper::Insert(e, b) => a.proof.insert(*e as usize % (m + 1), pad(b)),
        Tamper::Duplicate(e, f) => {
            let x = a.proof[*f as usize % m];
            a.proof.insert(*e as usize % (m + 1), x);
        }
        Tamper::InsertNode(e, k) => a.proof.insert(*e as usize % (m + 1), node(*k)),
        Tamper::Exchange(e, f) => a.proof.swap(*e as usize % m, *f as usize % m),
        Tamper::Truncate(k) => a.proof.truncate(*k as usize % m),
        Tamper::Empty => a.proof.clear(),
        Tamper::Index(x) => {
            a.index = x.resolve(n);
            if a.index < n {
                return None;
            }
        }
        Tamper::IndexLeaves(d) => a.index = n.saturating_add(*d),
    }
    if a.root == *root && a.proof == genuine && a.index == i {
        return None;
    }
    a.what = format!("proof of leaf {i} of {n} after {t:?}");
    Some(a)
}

fn helper_tree(data: &[Vec<u8>], i: Option<u64>) -> MerkleTree {
    let mut t = MerkleTree::new();
    if let Some(i) = i {
        t.set_proof_index(i);
    }
    for d in data {
        t.push(d);
    }
    t
}

fn check_helper(w: &World, i: u64) -> R {
    let n = w.model.len();
    let t = helper_tree(&w.data, Some(i));
    ensure_eq!(hex(&t.root()), hex(&w.tree.root()), "helper tree's root of {n} leaves");
    ensure_eq!(t.leaves_count(), n, "helper tree's leaf count");
    let (root, proof) = t.prove();
    ensure_eq!(hex(&root), hex(&w.tree.root()), "root with the helper tree's proof of {i} of {n}");
    let want = match i < n {
        true => w.tree.prove(i).map_err(|e| format!("prove {i}: {e:?}"))?.1,
        false => vec![],
    };
    let show = |p: &[B32]| p.iter().map(|h| hex(h)).collect::<Vec<_>>();
    ensure_eq!(show(&proof), show(&want), "helper tree's proof of leaf {i} of {n}");
    Ok(())
}

fn check_verifier(w: &World, i: u64, tampers: &[&Tamper], ctx: &mut Ctx) -> R {
    let n = w.model.len();
    let (root, proof) = w.tree.prove(i).map_err(|e| format!("prove {i}: {e:?}"))?;
    ensure!(verify(&root, &proof, i, n), "the proof of leaf {i} of {n} is rejected");
    for t in tampers {
        let Some(a) = alter(&w.model, i, t) else { continue };
        let r = guarded(|| verify(&a.root, &a.proof, a.index, n));
        match r {
            Ok(false) => {}
            Ok(true) => return Err(format!("accepted: {}", a.what)),
            Err(p) => return Err(format!("{}: {p}", a.what)),
        }
        ctx.compared += 1;
        ctx.nontrivial = true;
        ctx.label(match t {
            Tamper::FlipRoot(_) | Tamper::ReplaceRoot(_) => "altered root",
            Tamper::Remove(_) => "element removed",
            Tamper::Insert(..) | Tamper::Duplicate(..) | Tamper::InsertNode(..) => "element added",
            Tamper::Truncate(_) => "truncated",
            Tamper::Empty => "empty proof",
            Tamper::Index(_) | Tamper::IndexLeaves(_) => "index outside",
            Tamper::Exchange(..) => "elements exchanged",
            _ => "element altered",
        });
    }
    Ok(())
}

fn world(l: &Leaves) -> Result<World, String> {
    let mut w = World::new(Handle::new());
    match l {
        Leaves::Each(ds) => {
            for d in ds {
                let b = w.resolve(d);
                w.push(&b)?;
            }
        }
        Leaves::Equal(n) => {
            for _ in 0..*n {
                w.push(b"equal")?;
            }
        }
        Leaves::Counted(n) => {
            for i in 0..*n {
                w.push(&i.to_be_bytes())?;
            }
        }
    }
    Ok(w)
}

fn h01_check(c: &H01, ctx: &mut Ctx) -> R {
    let w = world(&c.leaves)?;
    let n = w.model.len();
    let t = helper_tree(&w.data, None);
    ensure_eq!(hex(&t.root()), hex(&w.tree.root()), "helper tree's root of {n} leaves");
    for (k, i) in c.proofs.iter().enumerate() {
        let i = i.resolve(n);
        check_helper(&w, i)?;
        ctx.label_if(i >= n, "helper proof outside the tree");
        if i < n {
            let mine: Vec<_> = c
                .tampers
                .iter()
                .filter(|(j, _)| *j as usize % c.proofs.len() == k)
                .map(|(_, t)| t)
                .collect();
            check_verifier(&w, i, &mine, ctx)?;
            ctx.nontrivial_if(n > 1);
        } else {
            let root = w.tree.root();
            let any: Vec<B32> = vec![root; k];
            ensure!(!verify(&root, &any, i, n), "a proof of leaf {i} of {n} is accepted");
        }
    }
    Ok(())
}

/// Every leaf of a tree of this size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size {
    n: u16,
    equal: bool,
}

fn h01_size(c: &Size, ctx: &mut Ctx) -> R {
    let w = world(&if c.equal { Leaves::Equal(c.n) } else { Leaves::Counted(c.n) })?;
    let n = c.n as u64;
    let step = (n / 24).max(1);
    let mut is: Vec<u64> = (0..n).step_by(step as usize).collect();
    is.extend([n.saturating_sub(1), n / 2, n, n + 1, u64::MAX]);
    for i in is {
        check_helper(&w, i)?;
        if i >= n {
            continue;
        }
        let m = w.model.proof(i).len() as u8;
        let mut ts = vec![Tamper::FlipRoot(i as u8), Tamper::Empty];
        ts.extend([0, 1, n, 1 << 32, u64::MAX - n].map(Tamper::IndexLeaves));
        for e in 0..m {
            ts.push(Tamper::FlipElement(e, (i as u8).wrapping_mul(7)));
            ts.push(Tamper::Remove(e));
            ts.push(Tamper::OtherNode(e, i as u16 + e as u16));
            ts.push(Tamper::Truncate(e));
        }
        for e in 0..=m {
            ts.push(Tamper::Insert(e, Blob { len: 32, fill: Fill::Random(e as u32) }));
            ts.push(Tamper::Duplicate(e, e));
            ts.push(Tamper::InsertNode(e, i as u16 * 3 + e as u16));
        }
        check_verifier(&w, i, &ts.iter().collect::<Vec<_>>(), ctx)?;
    }
    Ok(())
}

/// A few leaves of a tree of many leaves.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    n: u32,
    idx: Vec<Idx>,
}

fn large(k: u64) -> Large {
    let n = [1_030u32, 4_097, 20_000, 66_000, 140_000, 2_500, 8_191, 33_000, 131_072, 270_000, 530_000][k as usize % 11];
    let mut idx: Vec<Idx> = (0..6).map(|j| Idx::In(k.wrapping_mul(0x9e37_79b9).wrapping_add(j << 29 | j * 12_345))).collect();
    let mut p = 1;
    while p < n as u64 {
        idx.extend([Idx::In(p - 1), Idx::In(p)]);
        p *= 4;
    }
    idx.extend([Idx::In(n as u64 / 2), Idx::In(n as u64 - 1), Idx::In(n as u64 - 2)]);
    Large { n, idx }
}

fn large_check(c: &Large, ctx: &mut Ctx) -> R {
    let mut w = World::new(Handle::new());
    let mut model = RefBinary::default();
    for i in 0..c.n {
        let b = i.to_be_bytes();
        if let Err(e) = w.tree.push(&b) {
            return Err(format!("push {i}: {e:?}"));
        }
        model.push(&b);
    }
    let n = c.n as u64;
    for i in &c.idx {
        let i = i.resolve(n);
        let mut t = MerkleTree::new();
        t.set_proof_index(i);
        for j in 0..c.n {
            t.push(&j.to_be_bytes());
        }
        let got = t.prove();
        let (root, proof) = w.tree.prove(i).map_err(|e| format!("prove {i} of {n}: {e:?}"))?;
        ensure!(root == model.root() && proof == model.proof(i), "production proof of {i} of {n}");
        ensure!(got.0 == root, "helper tree's root of {n} leaves");
        ensure!(got.1 == proof, "helper tree's proof of leaf {i} of {n}");
        ensure!(verify(&root, &proof, i, n), "the proof of leaf {i} of {n} is rejected");
        for e in 0..proof.len() {
            let mut bad = proof.clone();
            flip_bit(&mut bad[e], e * 11 % 256);
            ensure!(!verify(&root, &bad, i, n), "accepted: proof of {i} of {n} with element {e} altered");
            ctx.compared += 1;
        }
        ensure!(!verify(&root, &proof, i + n, n), "accepted: index {i} + {n} of {n}");
        ctx.compared += 3;
        ctx.nontrivial = true;
    }
    Ok(())
}

/// A proof from a tree too large to build: whatever hashes its side nodes have, their fold is its root.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    n: u64,
    i: u64,
    sides: Sides,
    tampers: Vec<Tamper>,
    /// Lengths of made-up proofs.
    made_up: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sides {
    Random(u32),
    /// All the same.
    Same(u32),
    /// All but the leaf those of a tree of equal leaves.
    Equal,
}

fn giant_gen() -> BoxedStrategy<Giant> {
    let index = prop_oneof![
        3 => any::<u64>(),
        2 => wide_u64(),
        // Near the right edge.
        3 => wide_u64().prop_map(|x| u64::MAX - x),
        1 => Just(u64::MAX),
    ];
    let sides = prop_oneof![
        4 => any::<u32>().prop_map(Sides::Random),
        1 => any::<u32>().prop_map(Sides::Same),
        1 => Just(Sides::Equal),
    ];
    let mask = prop_oneof![2 => Just(u64::MAX), 1 => any::<u64>(), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a | b)];
    (wide_u64(), mask, index, sides, prop::collection::vec(tamper(), 0..8), prop::collection::vec(0u8..80, 0..4))
        .prop_map(|(n, mask, i, sides, tampers, made_up)| {
            let n = ((n & mask) >> 1).max(1);
            // The last ones count from the end.
            let i = if i >> 63 == 1 { n - 1 - (u64::MAX - i) % n } else { i % n };
            Giant { n, i, sides, tampers, made_up }
        })
        .boxed()
}

fn giant_check(c: &Giant, ctx: &mut Ctx) -> R {
    let (n, i) = (c.n.clamp(1, (1 << 63) - 1), c.i % c.n.max(1));
    let levels = path_ranges(n, i).len();
    let mut proof: Vec<B32> = Vec::new();
    for k in 0..=levels {
        proof.push(match &c.sides {
            Sides::Random(s) => sha(&[&s.to_be_bytes(), &[k as u8]]),
            Sides::Same(s) => sha(&[&s.to_be_bytes()]),
            Sides::Equal => match k {
                0 => sha(&[&[0]]),
                _ => node_hash(&proof[k - 1], &proof[k - 1]),
            },
        });
    }
    let root = fold_proof(n, i, &proof).ok_or("no fold")?;
    let run = |root: &B32, proof: &[B32], i: u64, what: &str| {
        guarded(|| verify(root, &proof.to_vec(), i, n)).map_err(|p| format!("{what}: {p}"))
    };
    ensure!(run(&root, &proof, i, "a genuine proof")?, "the proof of leaf {i} of {n} is rejected");
    ctx.compared += 1;
    ctx.nontrivial_if(n > 1 << 20);
    ctx.label_if(n > 1 << 32, "over 2^32 leaves");
    ctx.label_if(i + 1 == n, "the last leaf");
    let node = |k: u16| match k % 3 {
        0 => root,
        1 => sha(&[&k.to_be_bytes()]),
        _ => node_hash(&proof[k as usize % proof.len()], &proof[(k as usize + 1) % proof.len()]),
    };
    for t in &c.tampers {
        let Some(a) = alter_proof(n, i, &root, &proof, node, t) else { continue };
        ensure!(!run(&a.root, &a.proof, a.index, &a.what)?, "accepted: {}", a.what);
        ctx.compared += 1;
    }
    for up in 1..proof.len() {
        let list = start_at(n, i, &proof, up);
        let known = short_on_the_edge(n, i, &list, &root, proof.len());
        ensure!(!run(&root, &list, i, "a shortened proof")? || known, "accepted for leaf {i} of {n}: the list that starts {up} levels above it");
        ctx.compared += 1;
    }
    for len in &c.made_up {
        let made_up: Vec<B32> = (0..*len).map(|k| sha(&[b"made up", &[k]])).collect();
        ensure!(!run(&root, &made_up, i, "a made-up proof")?, "a made-up proof of {len} elements for leaf {i} of {n} is accepted");
        ctx.compared += 1;
    }
    Ok(())
}

/// Lists of hashes that end in the root of the tree, offered as proofs of other leaves than their own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forged {
    leaves: Leaves,
    lists: Vec<Forgery>,
    /// Whether the known finding counts.
    #[serde(default)]
    strict: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forgery {
    /// The leaf the list is offered for.
    index: u64,
    /// The leaf whose proof the list is made of, and how far up it starts.
    from: u64,
    up: u8,
    /// Elements changed after that.
    tamper: Option<Tamper>,
}

fn forged_gen() -> BoxedStrategy<Forged> {
    let leaves = prop_oneof![
        2 => prop::collection::vec(data(), 2..24).prop_map(Leaves::Each),
        1 => (2u16..70).prop_map(Leaves::Equal),
        4 => (2u16..40).prop_map(Leaves::Counted),
        1 => (2u16..600).prop_map(Leaves::Counted),
    ];
    // Many of the forgeries that could succeed are at the right edge.
    let index = || prop_oneof![2 => any::<u64>(), 1 => (0u64..8).prop_map(|x| u64::MAX - x)];
    let up = prop_oneof![2 => Just(0u8), 3 => 0u8..12];
    let list = (index(), index(), up, prop_oneof![5 => Just(None), 1 => tamper().prop_map(Some)])
        .prop_map(|(index, from, up, tamper)| Forgery { index, from, up, tamper });
    (leaves, prop::collection::vec(list, 1..12)).prop_map(|(leaves, lists)| Forged { leaves, lists, strict: false }).boxed()
}

/// The list that starts at the ancestor `up` levels above the leaf of a proof.
fn start_at(n: u64, i: u64, proof: &[B32], up: usize) -> Vec<B32> {
    let up = up.min(proof.len() - 1);
    let path = path_ranges(n, i);
    let mut h = proof[0];
    for (((pa, _), (sa, _)), side) in path.iter().rev().zip(&proof[1..]).take(up) {
        h = if sa < pa { node_hash(side, &h) } else { node_hash(&h, side) };
    }
    let mut out = vec![h];
    out.extend(&proof[1 + up..]);
    out
}

/// An index from a large number, or, for the largest, counted from the end.
fn at(x: u64, n: u64) -> u64 {
    if u64::MAX - x < 8 {
        n - 1 - (u64::MAX - x) % n
    } else {
        x % n
    }
}

/// The known finding (known-findings.json): the verifier does not count the side nodes to the left of the path
/// above the highest complete subtree that holds the leaf, so that it takes a list with too few of them if
/// it leads to the root.
fn short_on_the_edge(n: u64, i: u64, list: &[B32], root: &B32, genuine: usize) -> bool {
    if list.is_empty() || list.len() >= genuine {
        return false;
    }
    let mut sides = list[1..].iter();
    let mut h = list[0];
    let mut size = 1u64;
    // While the parent is complete.
    while i / (2 * size) * (2 * size) + 2 * size <= n {
        let Some(side) = sides.next() else { return false };
        h = if i / size % 2 == 0 { node_hash(&h, side) } else { node_hash(side, &h) };
        size *= 2;
    }
    if (i / size + 1) * size < n {
        let Some(side) = sides.next() else { return false };
        h = node_hash(&h, side);
    }
    for side in sides {
        h = node_hash(side, &h);
    }
    h == *root
}

fn forged_check(c: &Forged, ctx: &mut Ctx) -> R {
    let w = world(&c.leaves)?;
    let n = w.model.len();
    let root = w.model.root();
    for f in &c.lists {
        let (i, j) = (at(f.index, n), at(f.from, n));
        let mut list = start_at(n, j, &w.model.proof(j), f.up as usize);
        if let Some(a) = f.tamper.as_ref().and_then(|t| alter_proof(n, i, &root, &list, |k| w.model.leaves[k as usize % n as usize], t)) {
            list = a.proof;
        }
        let want = list == w.model.proof(i);
        let got = guarded(|| verify(&root, &list, i, n)).map_err(|p| format!("leaf {i} of {n}: {p}"))?;
        ensure!(got || !want, "the proof of leaf {i} of {n} is rejected");
        let known = short_on_the_edge(n, i, &list, &root, w.model.proof(i).len());
        ctx.label_if(known, "known finding");
        ensure!(
            !got || want || known && !c.strict,
            "accepted for leaf {i} of {n}: {} hashes that start {} levels above leaf {j}, which are not its proof",
            list.len(),
            f.up
        );
        ctx.compared += 1;
        ctx.nontrivial_if(!want);
        ctx.label_if(want, "genuine");
        ctx.label_if(!want && list.len() == w.model.proof(i).len(), "as long as the proof");
    }
    Ok(())
}

pub fn h01() -> Property {
    Property {
        id: "H01",
        subs: vec![
            sub("proofs", "random trees; for random leaves the genuine proof must be accepted and the helper tree must agree with the production tree; changed roots, elements, lengths and indices must be rejected; non-trivial: a real change was applied, or the tree has 2 leaves or more", 180_000, 2_000_000, h01_gen, h01_check),
            enumerate("sizes", "n = 0, 1, 2, ... leaves (equal and distinct ones), leaves spread over the tree, every element flipped, removed, replaced, cut off and inserted at every place; non-trivial: a change was applied", 200, 700, |i| Size { n: (i / 2) as u16, equal: i % 2 == 0 }, h01_size),
            enumerate("large", "trees of 1030 to 530 000 leaves: helper tree, production tree and verifier on leaves around powers of four, at the ends and in between; non-trivial: always", 5, 11, large, large_check),
            sub("forged", "lists made of the proofs of other leaves or of inner nodes, all folding to the root, offered as proofs: only a leaf's own proof may be accepted (but for the known finding); non-trivial: a list that is not the leaf's proof", 60_000, 700_000, forged_gen, forged_check),
            sub("giant", "the verifier alone on proofs from trees of up to 2^63 - 1 leaves (side nodes given, their fold is the root): accepted as they are, rejected after any single change, and made-up ones of up to 79 elements rejected; non-trivial: over 2^20 leaves", 200_000, 2_400_000, giant_gen, giant_check),
        ],
    }
}

// ---------------------------------------------------------------- H02

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Enc {
    Hex,
    Base64,
    Utf8,
}

impl Enc {
    fn name(self) -> &'static str {
        match self {
            Enc::Hex => "hex",
            Enc::Base64 => "base64",
            Enc::Utf8 => "utf-8",
        }
    }

    fn theirs(self) -> fixtures::Encoding {
        match self {
            Enc::Hex => fixtures::Encoding::Hex,
            Enc::Base64 => fixtures::Encoding::Base64,
            Enc::Utf8 => fixtures::Encoding::Utf8,
        }
    }

    /// UTF-8 only where the bytes allow it.
    fn or_hex(self, b: &[u8]) -> Enc {
        match self {
            Enc::Utf8 if std::str::from_utf8(b).is_err() => Enc::Hex,
            e => e,
        }
    }

    fn encode(self, b: &[u8]) -> String {
        match self {
            Enc::Hex => hex(b),
            Enc::Base64 => base64(b),
            Enc::Utf8 => String::from_utf8(b.to_vec()).unwrap(),
        }
    }
}

fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                out.push(A[(v >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

fn enc() -> BoxedStrategy<Enc> {
    prop_oneof![3 => Just(Enc::Hex), 2 => Just(Enc::Base64), 1 => Just(Enc::Utf8)].boxed()
}

fn value(b: &[u8], e: Enc) -> Value {
    let printable = |c: char| c.is_ascii_graphic() || c == ' ' || c.is_alphanumeric();
    let e = match std::str::from_utf8(b) {
        Ok(s) if s.chars().all(printable) => e,
        _ => e.or_hex(&[0xff]),
    };
    json!({"value": e.encode(b), "encoding": e.name()})
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Update(u8, Blob, Enc, Enc),
    Delete(u8, Enc),
}

/// What is wrong with a fixture, if anything.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrong {
    Nothing,
    /// A bit of the expected root is flipped.
    RootBit(u8),
    /// The expected root is that of the map after all but the last `n` steps.
    Earlier(u8),
    Zero,
    /// The expected root is that of the map without one of its entries.
    Without(u8),
    /// An unknown action at this step.
    Action(u8, u8),
    /// A bad character in the key, the data or the root.
    Key(u8),
    Data(u8),
    Root,
    /// The expected root has extra or missing bytes.
    RootLength(bool),
    Encoding(u8),
}

const ACTIONS: [&str; 10] =
    ["", "Update", "UPDATE", "updat", "update ", "updates", "Delete", "remove", "insert", "del"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct H02 {
    name: String,
    pool: Vec<KeySpec>,
    text_keys: bool,
    steps: Vec<Step>,
    root: Enc,
    wrong: Wrong,
    yaml: bool,
}

fn h02_gen() -> BoxedStrategy<H02> {
    let step = prop_oneof![
        4 => (any::<u8>(), blob(), enc(), enc()).prop_map(|(k, d, a, b)| Step::Update(k, d, a, b)),
        1 => (any::<u8>(), enc()).prop_map(|(k, a)| Step::Delete(k, a)),
    ];
    let wrong = prop_oneof![
        6 => Just(Wrong::Nothing),
        2 => any::<u8>().prop_map(Wrong::RootBit),
        2 => (1u8..4).prop_map(Wrong::Earlier),
        1 => Just(Wrong::Zero),
        1 => any::<u8>().prop_map(Wrong::Without),
        1 => (any::<u8>(), 0u8..10).prop_map(|(s, a)| Wrong::Action(s, a)),
        1 => any::<u8>().prop_map(Wrong::Key),
        1 => any::<u8>().prop_map(Wrong::Data),
        1 => Just(Wrong::Root),
        1 => any::<bool>().prop_map(Wrong::RootLength),
        1 => any::<u8>().prop_map(Wrong::Encoding),
    ];
    (
        "[a-zA-Z0-9 :#'\"-]{0,12}",
        key_pool(6),
        any::<bool>(),
        prop::collection::vec(step, 0..16),
        enc(),
        wrong,
        any::<bool>(),
    )
        .prop_map(|(name, pool, text_keys, steps, root, wrong, yaml)| H02 {
            name,
            pool,
            text_keys,
            steps,
            root,
            wrong,
            yaml,
        })
        .boxed()
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Outcome {
    Pass,
    /// An error, not a panic.
    Error,
    /// Anything but a pass.
    NoPass,
}

fn execute(doc: &Value, yaml: bool) -> Result<Result<(), String>, String> {
    let text = match yaml {
        true => serde_yaml::to_string(doc).unwrap(),
        false => doc.to_string(),
    };
    guarded(|| {
        let t: fixtures::sparse::Test =
            serde_yaml::from_str(&text).map_err(|e| format!("parse: {e}"))?;
        t.execute().map_err(|e| format!("{e:?}"))
    })
}

fn judge(got: Result<Result<(), String>, String>, want: Outcome, what: &str) -> R {
    match (&got, want) {
        (Ok(Ok(())), Outcome::Pass)
        | (Ok(Err(_)), Outcome::Error | Outcome::NoPass)
        | (Err(_), Outcome::NoPass) => Ok(()),
        _ => Err(format!("{what}: outcome {}, expected {want:?}", short(&got))),
    }
}

fn h02_check(c: &H02, ctx: &mut Ctx) -> R {
    let mut keys = resolve_keys(&c.pool);
    if c.text_keys {
        for k in &mut keys {
            *k = hex(&sha(&[k]))[..32].as_bytes().try_into().unwrap();
        }
    }
    let key = |k: u8| keys[k as usize % keys.len()];
    let mut steps = Vec::new();
    let mut models = vec![RefSparse::default()];
    for s in &c.steps {
        let mut m = models.last().unwrap().clone();
        match s {
            Step::Update(k, d, a, b) => {
                let (k, d) = (key(*k), d.bytes());
                m.update(&k, &d);
                steps.push(json!({"action": "update", "key": value(&k, *a), "data": value(&d, *b)}));
            }
            Step::Delete(k, a) => {
                let k = key(*k);
                m.delete(&k);
                steps.push(json!({"action": "delete", "key": value(&k, *a)}));
            }
        }
        models.push(m);
    }
    let right = models.last().unwrap().root();
    let mut root = right;
    let mut want = None;
    let mut root_value = None;
    let at = |s: u8| s as usize % c.steps.len().max(1);
    let broken = |v: &Value| {
        let mut v = v.clone();
        let s = v["value"].as_str().unwrap().to_string();
        v["value"] = json!(format!("{s}*"));
        (v["encoding"] != "utf-8").then_some(v)
    };
    let mut what = "correct fixture".to_string();
    match c.wrong {
        Wrong::Nothing => {}
        Wrong::RootBit(b) => flip_bit(&mut root, b as usize),
        Wrong::Earlier(n) => root = models[models.len().saturating_sub(1 + n as usize)].root(),
        Wrong::Zero => root = ZERO,
        Wrong::Without(i) => {
            let mut m = models.last().unwrap().clone();
            let k = m.map.keys().nth(i as usize % m.map.len().max(1)).copied();
            if let Some(k) = k {
                m.delete(&k);
            }
            root = m.root();
        }
        Wrong::Action(s, a) if !steps.is_empty() => {
            steps[at(s)]["action"] = json!(ACTIONS[a as usize]);
            want = Some(Outcome::Error);
        }
        Wrong::Key(s) if !steps.is_empty() => {
            if let Some(v) = broken(&steps[at(s)]["key"]) {
                steps[at(s)]["key"] = v;
                want = Some(Outcome::NoPass);
            }
        }
        Wrong::Data(s) if !steps.is_empty() => {
            if steps[at(s)]["action"] == "update" {
                if let Some(v) = broken(&steps[at(s)]["data"]) {
                    steps[at(s)]["data"] = v;
                    want = Some(Outcome::Error);
                }
            }
        }
        Wrong::Root => {
            root_value = broken(&value(&right, c.root));
            want = root_value.is_some().then_some(Outcome::NoPass);
        }
        Wrong::RootLength(more) => {
            let v = if more { [&right[..], &[0]].concat() } else { right[..31].to_vec() };
            root_value = Some(value(&v, Enc::Hex));
            want = Some(Outcome::NoPass);
        }
        Wrong::Encoding(s) if !steps.is_empty() => {
            steps[at(s)]["key"]["encoding"] = json!("rot13");
            want = Some(Outcome::NoPass);
        }
        _ => {}
    }
    if want.is_some() || root != right {
        what = format!("fixture with {:?}", c.wrong);
        ctx.label("must not pass");
    } else {
        ctx.label("must pass");
    }
    let want = want.unwrap_or(if root == right { Outcome::Pass } else { Outcome::Error });
    let doc = json!({
        "name": c.name,
        "expected_root": root_value.unwrap_or_else(|| value(&root, c.root)),
        "steps": steps,
    });
    judge(execute(&doc, c.yaml), want, &what)?;
    ctx.compared += 1;
    ctx.nontrivial = !c.steps.is_empty();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Binary {
    leaves: Vec<Data>,
    index: u64,
    tamper: Option<Tamper>,
    flip: bool,
    encodings: Vec<Enc>,
    /// Through a YAML document.
    text: bool,
    /// Breaks the encoding of an element (0 is the root).
    undecodable: Option<u8>,
}

fn binary_gen() -> BoxedStrategy<Binary> {
    (
        prop::collection::vec(data(), 1..20),
        any::<u64>(),
        prop::option::of(tamper()),
        any::<bool>(),
        prop::collection::vec(enc(), 1..4),
        any::<bool>(),
        prop_oneof![9 => Just(None), 1 => any::<u8>().prop_map(Some)],
    )
        .prop_map(|(leaves, index, tamper, flip, encodings, text, undecodable)| Binary {
            leaves,
            index,
            tamper,
            flip,
            encodings,
            text,
            undecodable,
        })
        .boxed()
}

fn binary_check(c: &Binary, ctx: &mut Ctx) -> R {
    let w = world(&Leaves::Each(c.leaves.clone()))?;
    let n = w.model.len();
    let i = c.index % n;
    let genuine = Altered {
        root: w.model.root(),
        proof: w.model.proof(i),
        index: i,
        what: format!("proof of leaf {i} of {n}"),
    };
    let altered = c.tamper.as_ref().and_then(|t| alter(&w.model, i, t));
    let truth = altered.is_none();
    let a = altered.unwrap_or(genuine);
    let encode = |k: usize, b: &B32| {
        let e = c.encodings[k % c.encodings.len()].or_hex(b);
        let mut s = e.encode(b);
        if c.undecodable.is_some_and(|u| u as usize % (a.proof.len() + 1) == k) {
            s.push('*');
        }
        EncodedValue::new(s, e.theirs())
    };
    let bad = c.undecodable.is_some();
    let test = fixtures::binary::ProofTest {
        name: "name".into(),
        function_name: "function".into(),
        description: "description: 'x'".into(),
        root: encode(0, &a.root),
        proof_set: a.proof.iter().enumerate().map(|(k, h)| encode(k + 1, h)).collect(),
        proof_index: a.index,
        num_leaves: n,
        expected_verification: truth != c.flip,
    };
    let text = c.text;
    let got = guarded(|| {
        let test = if text {
            let s = serde_yaml::to_string(&test).map_err(|e| format!("write: {e}"))?;
            serde_yaml::from_str(&s).map_err(|e| format!("parse: {e}"))?
        } else {
            test
        };
        test.execute().map_err(|e: TestError| format!("{e:?}"))
    });
    let want = match (bad, c.flip) {
        (true, _) => Outcome::NoPass,
        (false, true) => Outcome::Error,
        (false, false) => Outcome::Pass,
    };
    ctx.label(match (truth, c.flip) {
        (true, false) => "genuine, expected to verify",
        (true, true) => "genuine, expected to fail",
        (false, false) => "tampered, expected to fail",
        (false, true) => "tampered, expected to verify",
    });
    ctx.label_if(bad, "undecodable value");
    ctx.compared += 1;
    ctx.nontrivial = n > 1 || c.flip;
    judge(got, want, &format!("fixture of {} with verdict {}", a.what, truth != c.flip))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Codec {
    bytes: Blob,
    more: String,
    enc: Enc,
    text: bool,
}

fn codec_check(c: &Codec, ctx: &mut Ctx) -> R {
    let b = [&c.bytes.bytes(), c.more.as_bytes()].concat();
    let e = c.enc.or_hex(&b);
    let pass = |v: EncodedValue| -> Result<EncodedValue, String> {
        if c.text {
            let s = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
            serde_yaml::from_str(&s).map_err(|e| format!("parse {s:?}: {e}"))
        } else {
            Ok(v)
        }
    };
    let got = pass(EncodedValue::from_raw(&b, e.theirs()))?.into_bytes();
    let got = got.map_err(|e| format!("from_raw then into_bytes: {e:?}"))?;
    ensure_eq!(hex(&got), hex(&b), "{} value made with from_raw", e.name());
    let got = pass(EncodedValue::new(e.encode(&b), e.theirs()))?.into_bytes();
    let got = got.map_err(|e| format!("into_bytes of an encoded value: {e:?}"))?;
    ensure_eq!(hex(&got), hex(&b), "{} value made with new", e.name());
    // The written form is the encoding's.
    let v = serde_yaml::to_value(EncodedValue::from_raw(&b, e.theirs())).map_err(|e| e.to_string())?;
    ensure_eq!(v["encoding"].as_str(), Some(e.name()), "name of the encoding");
    let want = e.encode(&b);
    ensure_eq!(v["value"].as_str(), Some(want.as_str()), "encoded text");
    if e != Enc::Utf8 {
        for bad in ["*", "\u{e9}", "-"] {
            let r = EncodedValue::new(e.encode(&b) + bad, e.theirs()).into_bytes();
            ensure!(r.is_err(), "{} with {bad:?} appended decodes to {r:?}", e.name());
        }
    }
    ctx.compared += 1;
    ctx.nontrivial = !b.is_empty();
    ctx.label(e.name());
    Ok(())
}

fn codec_gen() -> BoxedStrategy<Codec> {
    let text = (0u32..20, any::<u32>()).prop_map(|(len, s)| Blob { len, fill: Fill::Text(s) });
    prop_oneof![
        3 => (blob(), Just(String::new()), enc(), any::<bool>()),
        1 => (text, ".{0,20}", enc(), any::<bool>()),
    ]
    .prop_map(|(bytes, more, enc, text)| Codec { bytes, more, enc, text })
    .boxed()
}

pub fn h02() -> Property {
    Property {
        id: "H02",
        subs: vec![
            sub("sparse", "random fixture documents over random steps, keys and encodings, correct or with one thing wrong (root bits, an earlier root, an unknown action, an undecodable value); the outcome is compared with the reference map; non-trivial: there are steps", 150_000, 1_800_000, h02_gen, h02_check),
            sub("binary", "random proof fixtures, genuine and tampered, with the right and the wrong recorded verdict, directly and through YAML; non-trivial: 2 leaves or more, or a wrong verdict", 150_000, 1_800_000, binary_gen, binary_check),
            sub("values", "random byte strings in every encoding, against independent encoders, round trips and undecodable texts; non-trivial: not empty", 300_000, 3_600_000, codec_gen, codec_check),
        ],
    }
}
