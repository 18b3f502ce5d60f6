//! A storage whose contents the harness can see, and which can be told to fail.

use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;

pub struct Tbl<K, V>(PhantomData<(K, V)>);

impl<K, V: Clone> Mappable for Tbl<K, V> {
    type Key = K;
    type SetValue = V;
    type GetValue = V;
}

/// The storage's error.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Boom(pub u64);

impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage failure {}", self.0)
    }
}

impl std::error::Error for Boom {}

/// An error, for [`text_of`](crate::text_of).
pub struct Shown<'a, T>(pub &'a T);

pub trait Text {
    fn text(&self) -> Option<String>;
}

impl<T: std::error::Error> Text for Shown<'_, T> {
    fn text(&self) -> Option<String> {
        Some(self.0.to_string())
    }
}

pub trait NoText {
    fn text(&self) -> Option<String>;
}

impl<T> NoText for &Shown<'_, T> {
    fn text(&self) -> Option<String> {
        None
    }
}

/// The text of an error, if its type is an `Error` at all.
#[macro_export]
macro_rules! text_of {
    ($e:expr) => {{
        #[allow(unused_imports)]
        use $crate::store::{NoText as _, Text as _};
        (&$crate::store::Shown($e)).text()
    }};
}

/// The numbers in a text.
pub fn numbers(text: &str) -> Vec<u64> {
    text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect()
}

/// With the standard library, an error is an `Error` and its text says what its value says.
pub fn text_says(text: Option<String>, value: &str, says: impl Fn(&str) -> bool) -> Result<(), String> {
    if !cfg!(feature = "std") {
        return Ok(());
    }
    match text {
        None => Err(format!("the type of {value} is not an Error: it has no text")),
        Some(t) if says(&t) => Ok(()),
        Some(t) => Err(format!("the text of {value} does not name its cause: {t}")),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plan {
    /// The access to fail, counting from when the plan is armed.
    pub at: u64,
    /// Whether a failing write still takes effect.
    pub after: bool,
    /// Whether every later access fails too.
    pub repeat: bool,
}

/// Failures of a long history: after `gap` sound accesses, `len` of them fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Strike {
    pub gap: u16,
    pub len: u8,
    pub after: bool,
}

pub fn strikes() -> proptest::strategy::BoxedStrategy<Vec<Strike>> {
    use proptest::prelude::*;
    let gap = prop_oneof![3 => 0u16..6, 4 => 0u16..40, 2 => 0u16..700];
    let len = prop_oneof![6 => Just(1u8), 1 => 2u8..4, 1 => 4u8..40];
    let strike = (gap, len, any::<bool>()).prop_map(|(gap, len, after)| Strike { gap, len, after });
    prop::collection::vec(strike, 1..12).boxed()
}

/// Counts accesses and decides which of them fail.
#[derive(Default)]
pub struct Ctl {
    pub plan: Cell<Option<Plan>>,
    count: Cell<u64>,
    fired: Cell<u64>,
    /// Failures still to come, the next one last.
    strikes: RefCell<Vec<Strike>>,
    pub reads: Cell<u64>,
    pub writes: Cell<u64>,
    /// Where the numbers of the errors start.
    pub salt: Cell<u64>,
}

/// Accesses after which an operation is taken not to end. A case makes at most a few hundred
/// thousand.
const BUDGET: u64 = 50_000_000;

enum Fate {
    Proceed,
    Fail,
    ApplyAndFail,
}

impl Ctl {
    pub fn arm(&self, plan: Plan) {
        self.plan.set(Some(plan));
        self.count.set(0);
        self.fired.set(0);
    }

    /// Ends the plan; returns how many accesses failed.
    pub fn disarm(&self) -> u64 {
        self.plan.set(None);
        self.fired.get()
    }

    /// Accesses since the plan was armed.
    pub fn count(&self) -> u64 {
        self.count.get()
    }

    /// Lets `strikes` happen from now on, in this order.
    pub fn storm(&self, strikes: &[Strike]) {
        *self.strikes.borrow_mut() = strikes.iter().rev().copied().collect();
        self.fired.set(0);
    }

    /// Suspends the failures to come.
    pub fn calm(&self) -> Vec<Strike> {
        std::mem::take(&mut *self.strikes.borrow_mut())
    }

    pub fn resume(&self, left: Vec<Strike>) {
        *self.strikes.borrow_mut() = left;
    }

    fn error(&self) -> Boom {
        Boom(self.salt.get() + self.fired.get())
    }

    /// Storage accesses so far.
    pub fn accesses(&self) -> u64 {
        self.reads.get() + self.writes.get()
    }

    /// Failed accesses since the plan was armed or the storm began.
    pub fn fired(&self) -> u64 {
        self.fired.get()
    }

    fn struck(&self) -> Option<bool> {
        let mut all = self.strikes.borrow_mut();
        let s = all.last_mut()?;
        if s.gap > 0 {
            s.gap -= 1;
            return None;
        }
        let after = s.after;
        if s.len <= 1 {
            all.pop();
        } else {
            s.len -= 1;
        }
        Some(after)
    }

    fn fate(&self) -> Fate {
        assert!(
            self.reads.get() + self.writes.get() < BUDGET,
            "{BUDGET} storage accesses without an end"
        );
        if let Some(after) = self.struck() {
            self.fired.set(self.fired.get() + 1);
            return if after { Fate::ApplyAndFail } else { Fate::Fail };
        }
        let Some(p) = self.plan.get() else { return Fate::Proceed };
        let i = self.count.get();
        self.count.set(i + 1);
        if i == p.at || (p.repeat && i > p.at) {
            self.fired.set(self.fired.get() + 1);
            if p.after {
                Fate::ApplyAndFail
            } else {
                Fate::Fail
            }
        } else {
            Fate::Proceed
        }
    }
}

/// A shared handle to a storage.
pub struct Handle<K, V> {
    pub map: Rc<RefCell<BTreeMap<K, V>>>,
    pub ctl: Rc<Ctl>,
}

impl<K, V> Clone for Handle<K, V> {
    fn clone(&self) -> Self {
        Handle { map: self.map.clone(), ctl: self.ctl.clone() }
    }
}

impl<K: Ord + Clone, V: Clone> Default for Handle<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Ord + Clone, V: Clone> Handle<K, V> {
    pub fn new() -> Self {
        Self::from_map(BTreeMap::new())
    }

    pub fn from_map(map: BTreeMap<K, V>) -> Self {
        Handle { map: Rc::new(RefCell::new(map)), ctl: Rc::default() }
    }

    /// A copy of the records.
    pub fn records(&self) -> BTreeMap<K, V> {
        self.map.borrow().clone()
    }

    /// An independent storage with the same records.
    pub fn fork(&self) -> Self {
        Self::from_map(self.records())
    }
}

impl<K: Ord + Clone, V: Clone> StorageInspect<Tbl<K, V>> for Handle<K, V> {
    type Error = Boom;

    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Boom> {
        self.ctl.reads.set(self.ctl.reads.get() + 1);
        match self.ctl.fate() {
            Fate::Proceed => Ok(self.map.borrow().get(key).cloned().map(Cow::Owned)),
            _ => Err(self.ctl.error()),
        }
    }

    fn contains_key(&self, key: &K) -> Result<bool, Boom> {
        self.ctl.reads.set(self.ctl.reads.get() + 1);
        match self.ctl.fate() {
            Fate::Proceed => Ok(self.map.borrow().contains_key(key)),
            _ => Err(self.ctl.error()),
        }
    }
}

impl<K: Ord + Clone, V: Clone> StorageMutate<Tbl<K, V>> for Handle<K, V> {
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Boom> {
        self.ctl.writes.set(self.ctl.writes.get() + 1);
        let fate = self.ctl.fate();
        let old = match fate {
            Fate::Fail => None,
            _ => self.map.borrow_mut().insert(key.clone(), value.clone()),
        };
        match fate {
            Fate::Proceed => Ok(old),
            _ => Err(self.ctl.error()),
        }
    }

    fn remove(&mut self, key: &K) -> Result<Option<V>, Boom> {
        self.ctl.writes.set(self.ctl.writes.get() + 1);
        let fate = self.ctl.fate();
        let old = match fate {
            Fate::Fail => None,
            _ => self.map.borrow_mut().remove(key),
        };
        match fate {
            Fate::Proceed => Ok(old),
            _ => Err(self.ctl.error()),
        }
    }
}

/// Read access only: does not implement `StorageMutate`.
pub struct ReadOnly<K, V>(pub Handle<K, V>);

impl<K: Ord + Clone, V: Clone> StorageInspect<Tbl<K, V>> for ReadOnly<K, V> {
    type Error = Boom;

    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Boom> {
        self.0.get(key)
    }

    fn contains_key(&self, key: &K) -> Result<bool, Boom> {
        self.0.contains_key(key)
    }
}
