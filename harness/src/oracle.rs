//! Reference models, written from the specifications and sharing no code with fuel-merkle.

use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

pub type B32 = [u8; 32];
pub const ZERO: B32 = [0; 32];

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn empty_hash() -> B32 {
    sha(&[])
}

pub fn leaf_hash(data: &[u8]) -> B32 {
    sha(&[&[0], data])
}

pub fn node_hash(l: &B32, r: &B32) -> B32 {
    sha(&[&[1], l, r])
}

/// In-order index of the root of the aligned subtree of 2^h leaves that is number `o` of its row.
pub fn position(h: u32, o: u64) -> u128 {
    ((o as u128) << (h + 1)) + (1u128 << h) - 1
}

/// Height and row offset of an in-order index.
pub fn coordinates(index: u64) -> (u32, u64) {
    let mut h = 0;
    while h < 64 && index >> h & 1 == 1 {
        h += 1;
    }
    let o = if h >= 63 { 0 } else { index >> (h + 1) };
    (h, o)
}

/// Largest power of two below `n` (n > 1).
pub fn split(n: u64) -> u64 {
    let mut k = 1u64;
    while k < n.div_ceil(2) {
        k <<= 1;
    }
    k
}

/// In-order index of the root of the leaves `[a, b)` of a tree.
pub fn range_position(a: u64, b: u64) -> u128 {
    let n = b - a;
    let mut h = 0;
    while (1u128 << h) < n as u128 {
        h += 1;
    }
    2 * a as u128 + (1u128 << h) - 1
}

/// The maximal complete subtrees of a tree of `n` leaves, left to right, as (height, offset).
pub fn peaks(n: u64) -> Vec<(u32, u64)> {
    let mut out = Vec::new();
    let mut start = 0u64;
    for h in (0..64).rev() {
        if n >> h & 1 == 1 {
            out.push((h, start >> h));
            start += 1 << h;
        }
    }
    out
}

/// The (path, side) ranges from the root of `n` leaves to leaf `i`, top down, without the root.
pub fn path_ranges(n: u64, i: u64) -> Vec<((u64, u64), (u64, u64))> {
    let (mut a, mut b) = (0, n);
    let mut out = Vec::new();
    while b - a > 1 {
        let m = a + split(b - a);
        if i < m {
            out.push(((a, m), (m, b)));
            b = m;
        } else {
            out.push(((m, b), (a, m)));
            a = m;
        }
    }
    out
}

/// RFC 6962 Merkle tree over a list of leaf hashes.
#[derive(Default, Clone)]
pub struct RefBinary {
    pub leaves: Vec<B32>,
    /// Hashes of complete aligned subtrees, by (height, offset).
    memo: RefCell<HashMap<(u32, u64), B32>>,
}

impl RefBinary {
    pub fn len(&self) -> u64 {
        self.leaves.len() as u64
    }

    pub fn is_empty(&self) -> bool {
        self.leaves.is_empty()
    }

    pub fn push(&mut self, data: &[u8]) {
        self.leaves.push(leaf_hash(data));
    }

    pub fn truncate(&mut self, n: u64) {
        self.leaves.truncate(n as usize);
        self.memo.borrow_mut().retain(|(h, o), _| (o + 1) << h <= n);
    }

    /// Hash of leaves [a, b), a range of the recursive split.
    pub fn range(&self, a: u64, b: u64) -> B32 {
        let n = b - a;
        if n == 0 {
            return empty_hash();
        }
        if n == 1 {
            return self.leaves[a as usize];
        }
        let complete = n.is_power_of_two() && a % n == 0;
        let key = (n.trailing_zeros(), a / n);
        if complete {
            if let Some(h) = self.memo.borrow().get(&key) {
                return *h;
            }
        }
        let m = a + split(n);
        let h = node_hash(&self.range(a, m), &self.range(m, b));
        if complete {
            self.memo.borrow_mut().insert(key, h);
        }
        h
    }

    pub fn root(&self) -> B32 {
        self.range(0, self.len())
    }

    /// Leaf hash, then the sibling subtrees' roots from the bottom up.
    pub fn proof(&self, i: u64) -> Vec<B32> {
        let mut out: Vec<B32> =
            path_ranges(self.len(), i).iter().map(|(_, s)| self.range(s.0, s.1)).collect();
        out.push(self.leaves[i as usize]);
        out.reverse();
        out
    }

    /// Every complete subtree's record.
    pub fn layout(&self) -> BTreeMap<u64, (u64, B32)> {
        let n = self.len();
        let mut out = BTreeMap::new();
        let mut h = 0;
        while 1u64 << h <= n {
            for o in 0..n >> h {
                let p = position(h, o) as u64;
                out.insert(p, (p, self.range(o << h, (o + 1) << h)));
            }
            h += 1;
        }
        out
    }
}

/// Folds a proof back to the root it proves (leaf `i` of `n`), or `None` if the length is wrong.
pub fn fold_proof(n: u64, i: u64, proof: &[B32]) -> Option<B32> {
    let path = path_ranges(n, i);
    if proof.len() != path.len() + 1 {
        return None;
    }
    let mut h = proof[0];
    for (((pa, _), (sa, _)), side) in path.iter().rev().zip(&proof[1..]) {
        h = if sa < pa { node_hash(side, &h) } else { node_hash(&h, side) };
    }
    Some(h)
}

/// A sparse tree record: height, kind, left child or key, right child or data hash.
pub type Rec = (u32, u8, B32, B32);

pub fn rec_hash(r: &Rec) -> B32 {
    sha(&[&[r.1], &r.2, &r.3])
}

fn bit(k: &B32, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}

/// The compact sparse Merkle tree of a map from key to data hash.
#[derive(Default, Clone)]
pub struct RefSparse {
    pub map: BTreeMap<B32, B32>,
}

impl RefSparse {
    pub fn update(&mut self, key: &B32, data: &[u8]) {
        if data.is_empty() {
            self.map.remove(key);
        } else {
            self.map.insert(*key, sha(&[data]));
        }
    }

    pub fn delete(&mut self, key: &B32) {
        self.map.remove(key);
    }

    fn entries(&self) -> Vec<(B32, B32)> {
        self.map.iter().map(|(k, v)| (*k, *v)).collect()
    }

    pub fn root(&self) -> B32 {
        subtree(&self.entries(), 0, &mut |_, _| {})
    }

    /// Every record of the tree, by hash.
    pub fn records(&self) -> BTreeMap<B32, Rec> {
        let mut out = BTreeMap::new();
        subtree(&self.entries(), 0, &mut |h, r| {
            out.insert(h, r);
        });
        out
    }

    /// Hashes of the nodes from the root towards `key`, and of the siblings beside them
    /// (zero hashes left out).
    pub fn path(&self, key: &B32) -> (Vec<B32>, Vec<B32>) {
        let records = self.records();
        let mut at = self.root();
        let (mut path, mut sides) = (Vec::new(), Vec::new());
        let mut depth = 0;
        while at != ZERO {
            path.push(at);
            let r = records[&at];
            if r.1 == 0 {
                break;
            }
            let (next, side) = if bit(key, depth) { (r.3, r.2) } else { (r.2, r.3) };
            if side != ZERO {
                sides.push(side);
            }
            at = next;
            depth += 1;
        }
        (path, sides)
    }
}

fn subtree(entries: &[(B32, B32)], depth: usize, emit: &mut dyn FnMut(B32, Rec)) -> B32 {
    let r = match entries {
        [] => return ZERO,
        [(k, v)] => (0, 0, *k, *v),
        _ => {
            let mid = entries.partition_point(|(k, _)| !bit(k, depth));
            let l = subtree(&entries[..mid], depth + 1, emit);
            let r = subtree(&entries[mid..], depth + 1, emit);
            (256 - depth as u32, 1, l, r)
        }
    };
    let h = rec_hash(&r);
    emit(h, r);
    h
}

/// The compact sparse Merkle tree kept up to date entry by entry, for large maps.
#[derive(Default)]
pub enum RefTrie {
    #[default]
    Empty,
    Leaf(B32, B32, B32),
    Inner(Box<RefTrie>, Box<RefTrie>, B32),
}

impl RefTrie {
    pub fn hash(&self) -> B32 {
        match self {
            RefTrie::Empty => ZERO,
            RefTrie::Leaf(.., h) | RefTrie::Inner(.., h) => *h,
        }
    }

    fn leaf(key: B32, value: B32) -> Self {
        RefTrie::Leaf(key, value, sha(&[&[0], &key, &value]))
    }

    /// The subtree over two subtrees: nothing, a lone leaf, or an inner node.
    fn over(l: RefTrie, r: RefTrie) -> Self {
        match (l, r) {
            (RefTrie::Empty, RefTrie::Empty) => RefTrie::Empty,
            (leaf @ RefTrie::Leaf(..), RefTrie::Empty) | (RefTrie::Empty, leaf @ RefTrie::Leaf(..)) => leaf,
            (l, r) => {
                let h = node_hash(&l.hash(), &r.hash());
                RefTrie::Inner(Box::new(l), Box::new(r), h)
            }
        }
    }

    fn set(self, key: &B32, value: Option<B32>, depth: usize) -> Self {
        match self {
            RefTrie::Inner(l, r, _) => {
                if bit(key, depth) {
                    Self::over(*l, r.set(key, value, depth + 1))
                } else {
                    Self::over(l.set(key, value, depth + 1), *r)
                }
            }
            RefTrie::Leaf(k, v, h) if k != *key => match value {
                None => RefTrie::Leaf(k, v, h),
                Some(_) => {
                    let here = RefTrie::Leaf(k, v, h);
                    // Part the two keys, however deep.
                    let split = if bit(&k, depth) {
                        RefTrie::Inner(Box::default(), Box::new(here), ZERO)
                    } else {
                        RefTrie::Inner(Box::new(here), Box::default(), ZERO)
                    };
                    split.set(key, value, depth)
                }
            },
            _ => value.map_or(RefTrie::Empty, |v| Self::leaf(*key, v)),
        }
    }

    pub fn update(&mut self, key: &B32, data: &[u8]) {
        let value = (!data.is_empty()).then(|| sha(&[data]));
        *self = std::mem::take(self).set(key, value, 0);
    }

    /// Hashes of the nodes from the root towards `key`, the leaf there included.
    pub fn path(&self, key: &B32) -> Vec<B32> {
        let mut at = self;
        let mut out = Vec::new();
        loop {
            match at {
                RefTrie::Empty => return out,
                RefTrie::Leaf(.., h) => {
                    out.push(*h);
                    return out;
                }
                RefTrie::Inner(l, r, h) => {
                    at = if bit(key, out.len()) { r } else { l };
                    out.push(*h);
                }
            }
        }
    }
}

/// A sum tree node.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SumNode {
    pub fee: u128,
    pub hash: B32,
}

pub fn sum_leaf(fee: u64, data: &[u8]) -> SumNode {
    SumNode { fee: fee as u128, hash: sha(&[&[0], &fee.to_be_bytes(), data]) }
}

pub fn sum_join(l: &SumNode, r: &SumNode) -> Option<SumNode> {
    let lf = u64::try_from(l.fee).ok()?;
    let rf = u64::try_from(r.fee).ok()?;
    let hash = sha(&[&[1], &lf.to_be_bytes(), &l.hash, &rf.to_be_bytes(), &r.hash]);
    Some(SumNode { fee: l.fee + r.fee, hash })
}

/// Root of the sum tree, `None` if some subtree's total does not fit in 64 bits.
pub fn sum_root(leaves: &[SumNode]) -> Option<SumNode> {
    match leaves {
        [] => Some(SumNode { fee: 0, hash: empty_hash() }),
        [l] => Some(l.clone()),
        _ => {
            let m = split(leaves.len() as u64) as usize;
            let n = sum_join(&sum_root(&leaves[..m])?, &sum_root(&leaves[m..])?)?;
            (n.fee <= u64::MAX as u128).then_some(n)
        }
    }
}

/// The sum tree kept over many leaves: complete subtrees are computed once.
#[derive(Default)]
pub struct RefSum {
    pub leaves: Vec<SumNode>,
    memo: RefCell<HashMap<(u32, u64), SumNode>>,
}

impl RefSum {
    pub fn push(&mut self, fee: u64, data: &[u8]) {
        self.leaves.push(sum_leaf(fee, data));
    }

    /// Node over leaves [a, b), a range of the recursive split; the total must fit.
    fn range(&self, a: u64, b: u64) -> SumNode {
        let n = b - a;
        if n == 1 {
            return self.leaves[a as usize].clone();
        }
        let key = (n.trailing_zeros(), a / n);
        let complete = n.is_power_of_two() && a % n == 0;
        if complete {
            if let Some(x) = self.memo.borrow().get(&key) {
                return x.clone();
            }
        }
        let m = a + split(n);
        let x = sum_join(&self.range(a, m), &self.range(m, b)).expect("the total fits");
        if complete {
            self.memo.borrow_mut().insert(key, x.clone());
        }
        x
    }

    pub fn root(&self) -> SumNode {
        match self.leaves.len() as u64 {
            0 => SumNode { fee: 0, hash: empty_hash() },
            n => self.range(0, n),
        }
    }
}
