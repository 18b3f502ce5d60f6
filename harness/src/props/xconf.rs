//! X01: every build configuration computes the same.
//!
//! A case is a program over all trees. Each configuration's build of this harness runs it in a
//! child process (`fm-harness transcript`, one case per line in, one transcript per line out) and
//! the transcripts are compared event by event. `FM_BINS` names the builds: `name=path,...`.

use crate::engine::{enumerate, guarded, sub, Ctx, Property, R};
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::props::binary::{data, idx, BHandle, BTree, Data, Idx};
use crate::props::sparse::{act, resolve, small_hist, Hist, SHandle, STree};
use crate::props::sum::{fee, SumTree};
use crate::store::*;
use fuel_merkle::binary;
use fuel_merkle::common::{AsPathIterator, Position};
use fuel_merkle::sparse;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Push(Data),
    Many(u16),
    Prove(Idx),
    Load(u32),
    /// Loads at a count the storage may not back.
    Claim(u64),
    /// Loses the record of this number.
    Lose(u16),
    /// The next operation's access of this number fails.
    Fault(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Push(u64, Blob),
    Root,
    Fault(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Program {
    Binary(Vec<BOp>),
    /// The history, with damage to the record of some number before some operations.
    Sparse(Hist, Vec<(u8, u16, Option<u8>)>, Option<(u8, u16)>),
    Sum(Vec<MOp>),
    /// Leaf counts and leaf indices.
    Positions(Vec<(u64, u64)>),
    /// A long run on the binary (0), sparse (1) or sum tree.
    Long(u8, u32, u32),
}

fn program() -> BoxedStrategy<Program> {
    let bop = prop_oneof![
        8 => data().prop_map(BOp::Push),
        2 => (0u16..200).prop_map(BOp::Many),
        5 => idx().prop_map(BOp::Prove),
        2 => any::<u32>().prop_map(BOp::Load),
        1 => wide_u64().prop_map(|n| BOp::Claim(n >> 2)),
        1 => any::<u16>().prop_map(BOp::Lose),
        1 => (0u8..8).prop_map(BOp::Fault),
    ];
    let mop = prop_oneof![
        8 => (prop_oneof![9 => fee(), 1 => wide_u64()], blob()).prop_map(|(f, b)| MOp::Push(f, b)),
        3 => Just(MOp::Root),
        1 => (0u8..6).prop_map(MOp::Fault),
    ];
    let damage = prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec((any::<u8>(), any::<u16>(), prop::option::of(2u8..=255)), 1..4),
    ];
    let fault = prop_oneof![2 => Just(None), 1 => (any::<u8>(), 0u16..30).prop_map(Some)];
    prop_oneof![
        4 => prop::collection::vec(bop, 1..24).prop_map(Program::Binary),
        4 => (small_hist(), damage, fault).prop_map(|(h, d, f)| Program::Sparse(h, d, f)),
        2 => prop::collection::vec(mop, 1..30).prop_map(Program::Sum),
        1 => prop::collection::vec((wide_u64(), wide_u64()), 1..20).prop_map(Program::Positions),
    ]
    .boxed()
}

/// What happened, one event per line of the program.
#[derive(Default)]
struct Log {
    events: Vec<String>,
}

impl Log {
    /// Runs a step; a panic ends the program.
    fn step<T: Debug>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(t) => {
                let s = format!("{name}: {t:?}");
                let s = if s.len() > 300 { format!("{name}: {}", hex(&sha(&[s.as_bytes()]))) } else { s };
                self.events.push(s);
                Some(t)
            }
            Err(_) => {
                self.events.push(format!("{name}: panic"));
                None
            }
        }
    }
}

fn run_binary(ops: &[BOp], log: &mut Log) -> Option<()> {
    let h = BHandle::new();
    let mut tree = BTree::new(h.clone());
    let mut model = RefBinary::default();
    let mut mem = binary::in_memory::MerkleTree::new();
    for op in ops {
        let n = model.len();
        match op {
            BOp::Push(d) => {
                let leaf = |i: u16| model.leaves[i as usize % n as usize];
                let b = match d {
                    Data::Blob(b) => b.bytes(),
                    _ if n == 0 => vec![],
                    Data::Same(i) | Data::LeafHash(i) => leaf(*i).to_vec(),
                    Data::Pair(i) | Data::NodePreimage(i) => [leaf(*i), leaf(*i)].concat(),
                    Data::Root => tree.root().to_vec(),
                };
                let r = log.step("push", || tree.push(&b))?;
                if r.is_ok() {
                    model.push(&b);
                    let _ = log.step("in-memory push", || mem.push(&b))?;
                }
                h.ctl.disarm();
            }
            BOp::Many(k) => {
                for i in 0..*k {
                    let b = i.to_le_bytes();
                    if log.step("push", || tree.push(&b))?.is_ok() {
                        model.push(&b);
                        mem.push(&b);
                    }
                    h.ctl.disarm();
                }
            }
            BOp::Prove(i) => {
                let i = i.resolve(n);
                let _ = log.step("prove", || tree.prove(i))?;
                h.ctl.disarm();
                let _ = log.step("in-memory prove", || mem.prove(i))?;
            }
            BOp::Load(k) => {
                let k = *k as u64 % (n + 1);
                if let Ok(t) = load_binary(log, &h, k)? {
                    tree = t;
                    model.truncate(k);
                    mem = binary::in_memory::MerkleTree::new();
                }
            }
            BOp::Claim(k) => {
                let r = load_binary(log, &h, *k)?;
                drop(r);
            }
            BOp::Lose(i) => {
                let mut map = h.map.borrow_mut();
                let k = map.keys().nth(*i as usize % map.len().max(1)).copied();
                if let Some(k) = k {
                    map.remove(&k);
                }
            }
            BOp::Fault(at) => {
                h.ctl.arm(Plan { at: *at as u64, after: false, repeat: false });
                continue;
            }
        }
        let _ = log.step("root", || (hex(&tree.root()), hex(&mem.root())))?;
    }
    let _ = log.step("records", || h.records())?;
    Some(())
}

fn load_binary(log: &mut Log, h: &BHandle, k: u64) -> Option<Result<BTree, ()>> {
    let mut tree = Err(());
    let _ = log.step("load", || {
        BTree::load(h.clone(), k).map(|t| {
            let r = hex(&t.root());
            tree = Ok(t);
            r
        })
    })?;
    h.ctl.disarm();
    Some(tree)
}

fn run_sparse(
    c: &Hist,
    damage: &[(u8, u16, Option<u8>)],
    fault: Option<(u8, u16)>,
    log: &mut Log,
) -> Option<()> {
    let keys = resolve_keys(&c.keys);
    let h = SHandle::new();
    let mut tree = STree::new(h.clone());
    let mut mem = sparse::in_memory::MerkleTree::new();
    let n = c.ops.len().max(1);
    for (i, op) in c.ops.iter().enumerate() {
        for (at, rec, kind) in damage {
            if *at as usize % n != i {
                continue;
            }
            let mut map = h.map.borrow_mut();
            let k = map.keys().nth(*rec as usize % map.len().max(1)).copied();
            match (k, kind) {
                (Some(k), None) => drop(map.remove(&k)),
                (Some(k), Some(b)) => map.get_mut(&k).unwrap().1 = *b,
                _ => {}
            }
        }
        if let Some((at, access)) = fault {
            if at as usize % n == i {
                h.ctl.arm(Plan { at: access as u64, after: false, repeat: false });
            }
        }
        match resolve(op, &keys) {
            Some((k, d)) => {
                let _ = log.step("operation", || act(&mut tree, &k, d.as_deref()))?;
                let _ = log.step("in-memory operation", || match &d {
                    Some(d) => mem.update(&k, d),
                    None => mem.delete(&k),
                })?;
            }
            None => {
                let root = tree.root();
                let mut loaded = None;
                let _ = log.step("load", || {
                    STree::load(h.clone(), &root).map(|t| {
                        let r = hex(&t.root());
                        loaded = Some(t);
                        r
                    })
                })?;
                if let Some(t) = loaded {
                    tree = t;
                }
            }
        }
        h.ctl.disarm();
        let _ = log.step("root", || (hex(&tree.root()), hex(&mem.root())))?;
    }
    let _ = log.step("records", || h.records())?;
    Some(())
}

fn run_sum(ops: &[MOp], log: &mut Log) -> Option<()> {
    let mut t = SumTree::new();
    for op in ops {
        match op {
            MOp::Push(f, b) => drop(log.step("push", || t.push(*f, &b.bytes()))?),
            MOp::Root => drop(log.step("root", || t.root())?),
            MOp::Fault(at) => {
                t.ctl.arm(Plan { at: *at as u64, after: false, repeat: false });
                continue;
            }
        }
        t.ctl.disarm();
    }
    let _ = log.step("root", || t.root())?;
    let _ = log.step("records", || t.records())?;
    Some(())
}

fn run_positions(cs: &[(u64, u64)], log: &mut Log) -> Option<()> {
    for &(n, i) in cs {
        let n = (n >> 1).max(1);
        let i = i % n;
        let leaf = Position::from_leaf_index(i);
        let _ = log.step("leaf", || (leaf.in_order_index(), leaf.height(), leaf.is_leaf()))?;
        let _ = log.step("kin", || {
            (leaf.sibling().in_order_index(), leaf.parent().in_order_index(), leaf.uncle().in_order_index())
        })?;
        let mut h = 0;
        while 1u128 << h < n as u128 {
            h += 1;
        }
        if h < 63 {
            let root = Position::from_in_order_index((1u64 << h) - 1);
            let _ = log.step("path", || {
                root.path(&leaf, n)
                    .iter()
                    .map(|(p, s)| (p.in_order_index(), s.in_order_index()))
                    .collect::<Vec<_>>()
            })?;
            let _ = log.step("full path", || {
                root.as_path_iter(&leaf)
                    .map(|(p, s)| [p, s].map(|x| x.map(|p| p.in_order_index()).ok()))
                    .take(70)
                    .collect::<Vec<_>>()
            })?;
        }
    }
    Some(())
}

fn run_long(kind: u8, n: u32, seed: u32, log: &mut Log) -> Option<()> {
    let blob = |i: u32| expand(seed ^ i / 3, (i % 40) as usize);
    let digest = |log: &mut Log, name: &str, s: String| {
        log.events.push(format!("{name}: {}", hex(&sha(&[s.as_bytes()]))));
    };
    match kind {
        0 => {
            let h = BHandle::new();
            let mut t = BTree::new(h.clone());
            log.step("pushes", || (0..n).filter(|&i| t.push(&blob(i)).is_err()).count())?;
            for k in [n as u64, n as u64 / 2, n as u64 - 1] {
                let t = match load_binary(log, &h, k)? {
                    Ok(t) => t,
                    Err(()) => continue,
                };
                for i in 0..24 {
                    let _ = log.step("prove", || t.prove(k * i / 23))?;
                }
            }
            let _ = log.step("root", || hex(&t.root()))?;
            digest(log, "records", format!("{:?}", h.records()));
        }
        1 => {
            let h = SHandle::new();
            let mut t = STree::new(h.clone());
            let key = |i: u32| match i % 4 {
                0 => sha(&[&i.to_be_bytes()]),
                1 => near(&sha(&[&(i - 1).to_be_bytes()]), (i / 4 % 256) as usize, &Rest::Keep),
                2 => [[(i >> 8) as u8; 8], [i as u8; 8], [0; 8], [i as u8; 8]].concat().try_into().unwrap(),
                _ => sha(&[&(i / 8).to_be_bytes()]),
            };
            for i in 0..n {
                let k = key(i);
                let r = log.step("operation", || match i % 7 {
                    5 => t.delete(&key(i / 2)),
                    _ => t.update(&k, &blob(i)),
                })?;
                if r.is_err() || i % 97 == 0 {
                    let root = t.root();
                    let _ = log.step("load", || STree::load(h.clone(), &root).map(|t| hex(&t.root())))?;
                }
            }
            let _ = log.step("root", || hex(&t.root()))?;
            digest(log, "records", format!("{:?}", h.records()));
        }
        _ => {
            let mut t = SumTree::new();
            for i in 0..n {
                let _ = log.step("push", || t.push(seed as u64 * i as u64 % 7, &blob(i)))?;
                if i % 101 == 0 {
                    let _ = log.step("root", || t.root())?;
                }
            }
            let _ = log.step("root", || t.root())?;
            digest(log, "records", format!("{:?}", t.records()));
        }
    }
    Some(())
}

fn long(i: u64) -> Program {
    let n = [40u32, 2_100, 330, 1_100, 4_200, 9_000, 600, 17_000, 34_000, 67_000];
    Program::Long((i % 3) as u8, n[i as usize / 3 % 10], i as u32 * 77)
}

/// The events of a program in this build.
pub fn transcript(p: &Program) -> Vec<String> {
    let mut log = Log::default();
    match p {
        Program::Binary(ops) => run_binary(ops, &mut log),
        Program::Sparse(h, d, f) => run_sparse(h, d, *f, &mut log),
        Program::Sum(ops) => run_sum(ops, &mut log),
        Program::Positions(c) => run_positions(c, &mut log),
        Program::Long(k, n, s) => run_long(*k, *n, *s, &mut log),
    };
    log.events
}

/// `fm-harness transcript`: answers each line on standard input.
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let p: Program = serde_json::from_str(&line).expect("program");
        let t = transcript(&p);
        writeln!(out, "{}", serde_json::to_string(&t).unwrap()).expect("write");
        out.flush().expect("flush");
    }
}

struct Peer {
    name: String,
    path: String,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}

impl Peer {
    fn ask(&mut self, line: &str) -> Result<Vec<String>, String> {
        if self.child.is_none() {
            let mut c = Command::new(&self.path)
                .arg("transcript")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("start a configuration's build");
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            self.child = Some((c, i, o));
        }
        let (_, stdin, stdout) = self.child.as_mut().unwrap();
        let mut answer = String::new();
        let ok = writeln!(stdin, "{line}").and_then(|_| stdin.flush()).is_ok();
        if !ok || stdout.read_line(&mut answer).unwrap_or(0) == 0 {
            self.stop();
            return Err(format!("the {} build died", self.name));
        }
        serde_json::from_str(&answer).map_err(|e| format!("{}: {e}", self.name))
    }

    fn stop(&mut self) {
        if let Some((mut c, i, o)) = self.child.take() {
            drop((i, o));
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.stop();
    }
}

thread_local! {
    static PEERS: RefCell<Vec<Peer>> = RefCell::new(
        std::env::var("FM_BINS")
            .unwrap_or_default()
            .split(',')
            .filter_map(|s| s.split_once('='))
            .map(|(n, p)| Peer { name: n.into(), path: p.into(), child: None })
            .collect(),
    );
}

fn x01_check(p: &Program, ctx: &mut Ctx) -> R {
    let line = serde_json::to_string(p).unwrap();
    let answers: Vec<(String, Result<Vec<String>, String>)> = PEERS.with(|ps| {
        ps.borrow_mut().iter_mut().map(|p| (p.name.clone(), p.ask(&line))).collect()
    });
    if answers.len() < 2 {
        eprintln!("X01 needs FM_BINS=name=path,name=path");
        std::process::exit(2);
    }
    let (name, first) = &answers[0];
    let first = match first {
        Ok(f) => f,
        Err(e) => return Err(e.clone()),
    };
    for (other, b) in &answers[1..] {
        let b = match b {
            Ok(b) => b,
            Err(e) => return Err(e.clone()),
        };
        for (i, (x, y)) in first.iter().zip(b).enumerate() {
            ensure!(x == y, "step {i} differs: {name} gives {x}, {other} gives {y}");
            ctx.compared += 1;
        }
        ensure!(first.len() == b.len(), "{name} took {} steps, {other} {}", first.len(), b.len());
    }
    let has = |s: &str| first.iter().any(|e| e.contains(s));
    ctx.label(match p {
        Program::Binary(_) => "binary",
        Program::Sparse(..) => "sparse",
        Program::Sum(_) => "sum",
        Program::Positions(_) => "positions",
        Program::Long(..) => "long runs",
    });
    ctx.label_if(has("Err("), "errors");
    ctx.label_if(has("Boom"), "storage failures");
    ctx.label_if(has(": panic"), "refused by panic");
    ctx.nontrivial = first.len() > 4;
    Ok(())
}

pub fn x01() -> Property {
    Property {
        id: "X01",
        subs: vec![sub("programs", "random programs over the binary, sparse and sum trees and the positions, with reloads, lost and mis-tagged records and storage failures, run by the builds {std, no-std} x {checked, release}; every result, error, root, proof and the final records compared; non-trivial: more than 4 steps", 32_000, 350_000, program, x01_check),
            enumerate("long", "long runs of up to 67 000 operations on one of the trees, with loads and proofs; non-trivial: more than 4 steps", 18, 30, long, x01_check),
        ],
    }
}
