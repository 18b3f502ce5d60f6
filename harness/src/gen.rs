//! Generators shared by the properties: byte strings, keys, indices.

use crate::oracle::{sha, B32};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Eight-byte data (little-endian) found by search. First those whose hash (as data, as leaf of a binary tree, of a
/// sum tree without fee, of a sparse tree at the zero key) begins or ends with four zero bytes or begins with
/// four of ones (and one that, pushed after an empty leaf, gives a root ending in zeros); then pairs whose
/// hashes (as data, as leaf of a binary tree, at the zero key) agree in the first or the last 8 bytes.
pub const MINED: [u64; 13 + 2 * 6] = [
    0x176180190, 0x70315646, 0x873a897f,
    0xf9563b25, 0x1aaa3a275, 0x305a5bba,
    0x216369e5, 0x4b2cc79b, 0x1dfdf7e02,
    0x20ae90bf2, 0xf2e194e4, 0xd1ba8b52,
    0x167c23927,
    0x58f3769413d46d5a, 0x5fe838ceec390c01,
    0xe189e193dffa441c, 0x18d774fc084ce834,
    0x332272d3d09fd27b, 0x1ffde0822784fbd7,
    0xd2392a6c6292703d, 0x1dcafd6aeb7d197a,
    0x1693e4554dae9d7f, 0x185adb403c9e2b4e,
    0xc4cf0b15f71dec31, 0x9f17a6ca06cca4f1,
];
/// Where the pairs begin.
pub const MINED_PAIRS: usize = 13;
/// Counters for which [`KeySpec::Counter`] gives a leaf of `value 0` with such a hash; pairs from the fourth on.
pub const MINED_KEYS: [u64; 7] = [
    0x216002b9, 0x1705d6191, 0xbec3a671,
    0x9a128aae50d260cb, 0x0bdc9a6c232b8bc7,
    0xb38132d29571cd40, 0xf7a31e8a1def7801,
];

/// The integer literals of the code under test above 2 (check.py reads them off its sources): values
/// at which it may behave differently.
pub fn constants() -> &'static [u64] {
    static LIST: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    LIST.get_or_init(|| {
        let text = std::env::var("FM_CONSTANTS").unwrap_or_default();
        text.split(',').filter_map(|x| x.parse().ok()).collect()
    })
}

/// Those constants that satisfy `keep`, and some numbers besides.
pub fn constants_and(more: &[u64], keep: fn(u64) -> bool) -> Vec<u64> {
    let mut v: Vec<u64> = more.to_vec();
    for &c in constants() {
        v.extend([c.wrapping_sub(1), c, c.wrapping_add(1)].into_iter().filter(|&x| keep(x)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Deterministic pseudo-random bytes.
pub fn expand(seed: u32, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len + 32);
    let mut i = 0u64;
    while out.len() < len {
        out.extend_from_slice(&sha(&[b"expand", &seed.to_be_bytes(), &i.to_be_bytes()]));
        i += 1;
    }
    out.truncate(len);
    out
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fill {
    Zero,
    Ones,
    Const(u8),
    Random(u32),
    /// Leading zero bytes, then random ones.
    LeadZero(u8, u32),
    TrailZero(u8, u32),
    /// First byte given, then random bytes.
    First(u8, u32),
    /// Last byte given.
    Last(u8, u32),
    /// All bytes equal but the last.
    AllBut(u8, u8),
    /// ASCII text.
    Text(u32),
    /// The given bytes, then zeros.
    Raw(Vec<u8>),
    /// A number in network byte order (or the other) from a given place on, random bytes around it.
    Number { at: u8, little: bool, value: u64, seed: u32 },
    /// Eight bytes of [`MINED`], then zeros.
    Mined(u8),
}

impl Fill {
    pub fn bytes(&self, len: usize) -> Vec<u8> {
        match self {
            Fill::Zero => vec![0; len],
            Fill::Ones => vec![0xff; len],
            Fill::Const(b) => vec![*b; len],
            Fill::Random(s) => expand(*s, len),
            Fill::LeadZero(n, s) => {
                let mut v = expand(*s, len);
                let n = (*n as usize).min(len);
                v[..n].fill(0);
                v
            }
            Fill::TrailZero(n, s) => {
                let mut v = expand(*s, len);
                let n = (*n as usize).min(len);
                v[len - n..].fill(0);
                v
            }
            Fill::First(b, s) => {
                let mut v = expand(*s, len);
                if let Some(x) = v.first_mut() {
                    *x = *b;
                }
                v
            }
            Fill::Last(b, s) => {
                let mut v = expand(*s, len);
                if let Some(x) = v.last_mut() {
                    *x = *b;
                }
                v
            }
            Fill::AllBut(a, b) => {
                let mut v = vec![*a; len];
                if let Some(x) = v.last_mut() {
                    *x = *b;
                }
                v
            }
            Fill::Text(s) => expand(*s, len).into_iter().map(|b| b'a' + b % 26).collect(),
            Fill::Raw(b) => (0..len).map(|i| b.get(i).copied().unwrap_or(0)).collect(),
            Fill::Number { at, little, value, seed } => {
                let mut v = expand(*seed, len);
                let mut b = value.to_be_bytes()[(value.leading_zeros() as usize / 8).min(7)..].to_vec();
                if *little {
                    b.reverse();
                }
                for (x, b) in v.iter_mut().skip(*at as usize).zip(b) {
                    *x = b;
                }
                v
            }
            Fill::Mined(i) => {
                let mut v = vec![0; len];
                for (x, b) in v.iter_mut().zip(MINED[*i as usize % MINED.len()].to_le_bytes()) {
                    *x = b;
                }
                v
            }
        }
    }
}

pub fn fill() -> BoxedStrategy<Fill> {
    let special: Vec<u8> = constants_and(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff], |x| x < 256).into_iter().map(|x| x as u8).collect();
    let special = select(special);
    let numbers = select(constants_and(&[0xff], |_| true));
    prop_oneof![
        2 => Just(Fill::Zero),
        6 => any::<u32>().prop_map(Fill::Random),
        1 => Just(Fill::Ones),
        1 => any::<u8>().prop_map(Fill::Const),
        1 => (0u8..40, any::<u32>()).prop_map(|(n, s)| Fill::LeadZero(n, s)),
        1 => (0u8..40, any::<u32>()).prop_map(|(n, s)| Fill::TrailZero(n, s)),
        1 => (special.clone(), any::<u32>()).prop_map(|(b, s)| Fill::First(b, s)),
        1 => (special.clone(), any::<u32>()).prop_map(|(b, s)| Fill::Last(b, s)),
        1 => (special.clone(), special).prop_map(|(a, b)| Fill::AllBut(a, b)),
        1 => any::<u32>().prop_map(Fill::Text),
        1 => prop::collection::vec(any::<u8>(), 32).prop_map(Fill::Raw),
        1 => (prop_oneof![2 => Just(0u8), 1 => 0u8..32], any::<bool>(), numbers, any::<u32>())
            .prop_map(|(at, little, value, seed)| Fill::Number { at, little, value, seed }),
    ]
    .boxed()
}

/// A byte string, described.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Blob {
    pub len: u32,
    pub fill: Fill,
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        self.fill.bytes(self.len as usize)
    }
}

/// Lengths around the SHA-256 block and padding boundaries, hash and record sizes.
pub const BOUNDARY_LENGTHS: [u32; 40] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65,
    69, 71, 72, 73, 80, 118, 119, 120, 127, 128, 129, 255, 256, 257,
];

pub fn length() -> BoxedStrategy<u32> {
    prop_oneof![
        10 => 0u32..=40,
        6 => select(BOUNDARY_LENGTHS.to_vec()),
        4 => 0u32..=300,
        1 => select(constants_and(&[64], |x| x <= 300)).prop_map(|x| x as u32),
    ]
    .boxed()
}

pub fn blob() -> BoxedStrategy<Blob> {
    prop_oneof![
        30 => (length(), fill()).prop_map(|(len, fill)| Blob { len, fill }),
        1 => mined(),
    ]
    .boxed()
}

/// Data whose hash is special, or shares 8 bytes with that of other data.
pub fn mined() -> BoxedStrategy<Blob> {
    (0..MINED.len() as u8).prop_map(|i| Blob { len: 8, fill: Fill::Mined(i) }).boxed()
}

/// As [`blob`], sometimes much longer.
pub fn any_blob() -> BoxedStrategy<Blob> {
    let len = prop_oneof![
        60 => length(),
        4 => 300u32..=5000,
        1 => select(constants_and(&[64], |x| x <= 200_000)).prop_map(|x| x as u32),
        1 => select(vec![511u32, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131073]),
    ];
    prop_oneof![
        40 => (len, fill()).prop_map(|(len, fill)| Blob { len, fill }),
        1 => mined(),
    ]
    .boxed()
}

/// Any 64-bit number, with every magnitude equally likely.
pub fn wide_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => (0u32..64, any::<u64>()).prop_map(|(s, x)| x >> s),
        2 => (0u32..64, 0u64..5).prop_map(|(s, d)| (1u64 << s).wrapping_sub(2).wrapping_add(d)),
        1 => (0u64..6).prop_map(|d| u64::MAX - d),
        1 => (0u32..64, 0u32..64).prop_map(|(a, b)| (1u64 << a) | (1u64 << b)),
        1 => 0u64..64,
        1 => any::<u64>(),
        1 => select(constants_and(&[1 << 32], |_| true)),
    ]
    .boxed()
}

/// What follows the flipped bit of a [`KeySpec::Near`] key.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Rest {
    Keep,
    Zero,
    Ones,
    Random(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum KeySpec {
    Fresh(Fill),
    /// A big-endian counter.
    Counter(u64),
    /// The hash of a counter.
    Hashed(u32),
    /// Shares exactly `bit` leading bits with an earlier key of the pool.
    Near { base: u8, bit: u8, rest: Rest },
}

pub fn get_bit(k: &B32, bit: usize) -> bool {
    k[bit / 8] >> (7 - bit % 8) & 1 == 1
}

pub fn flip_bit(k: &mut B32, bit: usize) {
    k[bit / 8] ^= 1 << (7 - bit % 8);
}

pub fn near(base: &B32, bit: usize, rest: &Rest) -> B32 {
    let mut k = *base;
    flip_bit(&mut k, bit);
    let fill: B32 = match rest {
        Rest::Keep => return k,
        Rest::Zero => [0; 32],
        Rest::Ones => [0xff; 32],
        Rest::Random(s) => expand(*s, 32).try_into().unwrap(),
    };
    for b in bit + 1..256 {
        if get_bit(&k, b) != get_bit(&fill, b) {
            flip_bit(&mut k, b);
        }
    }
    k
}

pub fn common_prefix(a: &B32, b: &B32) -> usize {
    (0..256).find(|&i| get_bit(a, i) != get_bit(b, i)).unwrap_or(256)
}

pub fn resolve_keys(specs: &[KeySpec]) -> Vec<B32> {
    let mut keys: Vec<B32> = Vec::new();
    for s in specs {
        let k = match s {
            KeySpec::Fresh(f) => f.bytes(32).try_into().unwrap(),
            KeySpec::Counter(c) => {
                let mut k = [0u8; 32];
                k[24..].copy_from_slice(&c.to_be_bytes());
                k
            }
            KeySpec::Hashed(c) => sha(&[&c.to_be_bytes()]),
            KeySpec::Near { base, bit, rest } => match keys.len() {
                0 => near(&[0; 32], *bit as usize, rest),
                n => near(&keys[*base as usize % n], *bit as usize, rest),
            },
        };
        keys.push(k);
    }
    keys
}

fn bit() -> BoxedStrategy<u8> {
    prop_oneof![
        4 => 0u8..=255,
        3 => 0u8..8,
        1 => 248u8..=255,
        2 => select(vec![7u8, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 240, 247, 253, 254, 255]),
    ]
    .boxed()
}

pub fn rest() -> BoxedStrategy<Rest> {
    prop_oneof![
        2 => Just(Rest::Keep),
        1 => Just(Rest::Zero),
        1 => Just(Rest::Ones),
        3 => any::<u32>().prop_map(Rest::Random),
    ]
    .boxed()
}

pub fn key_spec() -> BoxedStrategy<KeySpec> {
    prop_oneof![
        6 => (any::<u8>(), bit(), rest()).prop_map(|(base, bit, rest)| KeySpec::Near { base, bit, rest }),
        3 => fill().prop_map(KeySpec::Fresh),
        1 => prop_oneof![
            6 => 0u64..20,
            2 => select(constants_and(&[1 << 32], |_| true)),
            1 => select(MINED_KEYS.to_vec()),
        ].prop_map(KeySpec::Counter),
        1 => (0u32..100).prop_map(KeySpec::Hashed),
    ]
    .boxed()
}

/// Between 1 and `max` keys; pools differ in how close their keys are.
pub fn key_pool(max: usize) -> BoxedStrategy<Vec<KeySpec>> {
    prop_oneof![
        5 => prop::collection::vec(key_spec(), 1..=max),
        // Close together: every key splits off deep below the others.
        2 => prop::collection::vec(
            (any::<u8>(), 200u8..=255, rest())
                .prop_map(|(base, bit, rest)| KeySpec::Near { base, bit, rest }), 2..=max.max(2)),
        // A dense shallow tree.
        2 => prop::collection::vec(
            (any::<u8>(), 0u8..6, rest())
                .prop_map(|(base, bit, rest)| KeySpec::Near { base, bit, rest }), 2..=max.max(2)),
        2 => prop::collection::vec((0u32..100_000).prop_map(KeySpec::Hashed), 1..=max),
        1 => prop::collection::vec((0u64..64).prop_map(KeySpec::Counter), 1..=max),
    ]
    .boxed()
}

/// Every length up to 1100, then those around powers of two up to 16 MiB.
pub fn some_length(i: u64) -> u32 {
    match i {
        0..=1100 => i as u32,
        _ => {
            let j = i - 1101;
            let shift = 11 + j / 5 % 14;
            ((1u64 << shift) + j % 5 - 2) as u32
        }
    }
}
pub const LENGTHS: u64 = 1101 + 5 * 13;
pub const ALL_LENGTHS: u64 = 1101 + 5 * 14;

/// A byte string of the given length and some that differ from it little.
pub fn variants(len: u32, seed: u32) -> Vec<Vec<u8>> {
    let base = match seed % 3 {
        0 => vec![0; len as usize],
        1 => vec![0xff; len as usize],
        _ => {
            // Cheap for long ones.
            let block = expand(seed, 997);
            (0..len as usize).map(|i| block[i % 997] ^ (i / 997) as u8).collect()
        }
    };
    let mut out = vec![base.clone()];
    for at in [0, base.len() / 2, base.len().saturating_sub(1)] {
        let mut v = base.clone();
        if let Some(b) = v.get_mut(at) {
            *b ^= 1 << (seed % 8);
            out.push(v);
        }
    }
    let mut longer = base.clone();
    longer.push(0);
    out.push(longer);
    let mut shorter = base;
    if shorter.pop().is_some() {
        out.push(shorter);
    }
    out
}
