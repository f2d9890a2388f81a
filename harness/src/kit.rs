//! Shared pieces: recording handlers, snapshot helpers, value generators.
use metrix::instruments::Update;
use metrix::processor::ProcessingStrategy;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const NS: u64 = 1;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

// ------------------------------------------------------------ observations

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Unit {
    Ns,
    Us,
    Ms,
    S,
}
impl Unit {
    pub const ALL: [Unit; 4] = [Unit::Ns, Unit::Us, Unit::Ms, Unit::S];
    pub fn tu(self) -> TimeUnit {
        match self {
            Unit::Ns => TimeUnit::Nanoseconds,
            Unit::Us => TimeUnit::Microseconds,
            Unit::Ms => TimeUnit::Milliseconds,
            Unit::S => TimeUnit::Seconds,
        }
    }
    pub fn nanos(self) -> u128 {
        match self {
            Unit::Ns => 1,
            Unit::Us => 1_000,
            Unit::Ms => 1_000_000,
            Unit::S => 1_000_000_000,
        }
    }
}
pub fn unit() -> impl Strategy<Value = Unit> {
    prop_oneof![Just(Unit::Ns), Just(Unit::Us), Just(Unit::Ms), Just(Unit::S)]
}

/// `t` units `from` in units `to`, rounded towards zero, saturating.
pub fn convert_units(t: u64, from: Unit, to: Unit) -> u64 {
    let ns = t as u128 * from.nanos();
    u64::try_from(ns / to.nanos()).unwrap_or(u64::MAX)
}

/// A float that survives JSON (bits).
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct F(pub u64);
impl F {
    pub fn get(self) -> f64 {
        f64::from_bits(self.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Val {
    I(i64),
    U(u64),
    F(F),
    B(bool),
    D(u64, Unit),
    Chg(i64),
}
impl Val {
    pub fn ov(self) -> ObservedValue {
        match self {
            Val::I(v) => ObservedValue::SignedInteger(v),
            Val::U(v) => ObservedValue::UnsignedInteger(v),
            Val::F(v) => ObservedValue::Float(v.get()),
            Val::B(v) => ObservedValue::Bool(v),
            Val::D(v, u) => ObservedValue::Duration(v, u.tu()),
            Val::Chg(v) => ObservedValue::ChangedBy(v),
        }
    }
    pub fn is_delta(self) -> bool {
        matches!(self, Val::Chg(_))
    }
    pub fn from_ov(v: &ObservedValue) -> Val {
        match *v {
            ObservedValue::SignedInteger(v) => Val::I(v),
            ObservedValue::UnsignedInteger(v) => Val::U(v),
            ObservedValue::Float(v) => Val::F(F(v.to_bits())),
            ObservedValue::Bool(v) => Val::B(v),
            ObservedValue::Duration(v, u) => Val::D(
                v,
                match u {
                    TimeUnit::Nanoseconds => Unit::Ns,
                    TimeUnit::Microseconds => Unit::Us,
                    TimeUnit::Milliseconds => Unit::Ms,
                    TimeUnit::Seconds => Unit::S,
                },
            ),
            ObservedValue::ChangedBy(v) => Val::Chg(v),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    One,
    Many(u64),
    Value(Val),
}
impl Kind {
    pub fn is_delta(self) -> bool {
        matches!(self, Kind::Value(v) if v.is_delta())
    }
    pub fn obs<L>(self, label: L, timestamp: Instant) -> Observation<L> {
        match self {
            Kind::One => Observation::ObservedOne { label, timestamp },
            Kind::Many(count) => Observation::Observed { label, count, timestamp },
            Kind::Value(v) => Observation::ObservedOneValue { label, value: v.ov(), timestamp },
        }
    }
    pub fn update(self, timestamp: Instant) -> Update {
        match self {
            Kind::One => Update::Observation(timestamp),
            Kind::Many(count) => Update::Observations(count, timestamp),
            Kind::Value(v) => Update::ObservationWithValue(v.ov(), timestamp),
        }
    }
    pub fn of<L>(o: &Observation<L>) -> Kind {
        match o {
            Observation::ObservedOne { .. } => Kind::One,
            Observation::Observed { count, .. } => Kind::Many(*count),
            Observation::ObservedOneValue { value, .. } => Kind::Value(Val::from_ov(value)),
        }
    }
    /// occurrences it stands for
    pub fn count(self) -> u64 {
        match self {
            Kind::Many(n) => n,
            _ => 1,
        }
    }
}

/// Integers with weight on the limits and powers of two.
/// Around multiples of powers of ten: whole seconds, milliseconds and so on.
fn decimal() -> impl Strategy<Value = i128> {
    (prop_oneof![Just(1u64), 1u64..1_000, any::<u64>()], 0u32..20, -2i128..3).prop_map(|(m, e, d)| {
        let p = 10i128.pow(e);
        let m = 1 + (m as i128 - 1).max(0) % (u64::MAX as i128 / p).max(1);
        m * p + d
    })
}
pub fn any_u64() -> impl Strategy<Value = u64> {
    prop_oneof![
        6 => 0u64..20,
        3 => 0u64..100_000,
        2 => any::<u64>(),
        3 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add(d as u64)),
        3 => decimal().prop_map(|v| v as u64),
        1 => prop_oneof![
            Just(u64::MAX), Just(u64::MAX - 1), Just(i64::MAX as u64), Just(i64::MAX as u64 + 1),
            Just(u32::MAX as u64), Just(u32::MAX as u64 + 1), Just(1u64 << 53), Just((1u64 << 53) + 1),
            Just(i64::MAX as u64 / 1_000), Just(u64::MAX / 1_000_000 + 1), Just(u64::MAX / 1_000_000_000 + 1)
        ],
    ]
}
pub fn any_i64() -> impl Strategy<Value = i64> {
    prop_oneof![
        6 => -20i64..20,
        3 => -100_000i64..100_000,
        2 => any::<i64>(),
        3 => (0u32..63, -2i64..3, any::<bool>()).prop_map(|(b, d, n)| {
            let v = (1i64 << b).wrapping_add(d);
            if n { v.wrapping_neg() } else { v }
        }),
        2 => (decimal(), any::<bool>()).prop_map(|(v, n)| if n { (v as i64).wrapping_neg() } else { v as i64 }),
        1 => prop_oneof![Just(i64::MAX), Just(i64::MIN), Just(i64::MIN + 1), Just(i64::MAX - 1), Just(-1), Just(0)],
    ]
}
pub fn any_f64() -> impl Strategy<Value = F> {
    prop_oneof![
        4 => (-1000i32..1000).prop_map(|v| v as f64),
        4 => (-1_000_000i32..1_000_000).prop_map(|v| v as f64 / 8.0),
        3 => any::<u64>().prop_map(f64::from_bits),
        2 => any_i64().prop_map(|v| v as f64),
        2 => any_u64().prop_map(|v| v as f64),
        2 => (any::<i32>(), -300i32..300).prop_map(|(m, e)| m as f64 * 10f64.powi(e)),
        1 => any_i64().prop_map(|v| v as f64 + 0.5),
        1 => (0u32..130, -2i64..3, any::<bool>()).prop_map(|(e, d, n)| {
            let v = f64::from_bits((2f64.powi(e as i32).to_bits() as i64 + d) as u64);
            if n { -v } else { v }
        }),
        2 => prop_oneof![
            Just(f64::NAN), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(-0.0), Just(0.5), Just(-0.5),
            Just(1.5), Just(f64::MAX), Just(f64::MIN), Just(f64::MIN_POSITIVE), Just(5e-324),
            Just(9_223_372_036_854_775_807.0), Just(-9_223_372_036_854_775_808.0), Just(18_446_744_073_709_551_615.0),
            Just(18_446_744_073_709_549_568.0), Just(9_223_372_036_854_774_784.0)
        ],
    ]
    .prop_map(|v| F(v.to_bits()))
}
pub fn val() -> impl Strategy<Value = Val> {
    prop_oneof![
        4 => any_i64().prop_map(Val::I),
        4 => any_u64().prop_map(Val::U),
        3 => any_f64().prop_map(Val::F),
        1 => any::<bool>().prop_map(Val::B),
        3 => (any_u64(), unit()).prop_map(|(v, u)| Val::D(v, u)),
        3 => any_i64().prop_map(Val::Chg),
    ]
}
/// Values without numeric extremes.
pub fn tame_val() -> impl Strategy<Value = Val> {
    prop_oneof![
        4 => (-1_000i64..1_000).prop_map(Val::I),
        4 => (0u64..100_000).prop_map(Val::U),
        2 => (-8_000i64..8_000).prop_map(|v| Val::F(F((v as f64 / 8.0).to_bits()))),
        1 => any::<bool>().prop_map(Val::B),
        2 => (0u64..100_000_000, unit()).prop_map(|(v, u)| Val::D(v, u)),
        3 => (-50i64..50).prop_map(Val::Chg),
    ]
}
pub fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        2 => Just(Kind::One),
        2 => any_u64().prop_map(Kind::Many),
        4 => val().prop_map(Kind::Value),
    ]
}
pub fn tame_kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        2 => Just(Kind::One),
        2 => (0u64..50).prop_map(Kind::Many),
        4 => tame_val().prop_map(Kind::Value),
    ]
}

/// Durations in ns: zero, tiny, seconds, minutes, hours, weeks.
pub fn gap() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => Just(0u64),
        3 => 1u64..2_000,
        4 => 1u64..(2 * SEC),
        4 => (0u64..200).prop_map(|v| v * SEC / 2),
        3 => (0u64..40).prop_map(|v| v * SEC),
        2 => (0u64..4_000).prop_map(|v| v * SEC),
        1 => (0u64..3_000_000).prop_map(|v| v * SEC),
    ]
}

// ------------------------------------------------------------ strategies

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Strat {
    All,
    Drop,
    Older { max_age_ns: u64, drop_deltas: bool },
    /// the greatest possible age limit
    OlderMax { drop_deltas: bool },
}
impl Strat {
    pub fn get(self) -> ProcessingStrategy {
        match self {
            Strat::All => ProcessingStrategy::ProcessAll,
            Strat::Drop => ProcessingStrategy::DropAll,
            Strat::Older { max_age_ns, drop_deltas } => {
                ProcessingStrategy::DropOlderThan { max_age: Duration::from_nanos(max_age_ns), drop_deltas }
            }
            Strat::OlderMax { drop_deltas } => ProcessingStrategy::DropOlderThan { max_age: Duration::MAX, drop_deltas },
        }
    }
    /// `age`: run start minus timestamp
    pub fn keeps(self, age: i128, delta: bool) -> bool {
        match self {
            Strat::All => true,
            Strat::Drop => false,
            Strat::Older { max_age_ns, drop_deltas } => age <= max_age_ns as i128 || (delta && !drop_deltas),
            Strat::OlderMax { .. } => true,
        }
    }
}

// ------------------------------------------------------------ time

/// The instant the calling thread's virtual clock had when it showed `ns`.
pub fn at(ns: i128) -> Instant {
    let now = crate::vclock::now_ns() as i128;
    let i = real_now();
    if ns >= now {
        i + Duration::from_nanos((ns - now) as u64)
    } else {
        i - Duration::from_nanos((now - ns) as u64)
    }
}
/// `Instant::now()` without consuming a tick
pub fn real_now() -> Instant {
    Instant::now()
}

// ------------------------------------------------------------ handlers

#[derive(Debug, Clone, PartialEq)]
pub struct Rec<L> {
    pub label: L,
    pub kind: Kind,
    pub ts: Instant,
}

pub type Log<L> = Arc<Mutex<Vec<Rec<L>>>>;

/// A handler that records every observation it sees.
pub struct Recorder<L> {
    pub log: Log<L>,
    pub name: String,
    pub reports: usize,
    pub dropped: Option<Arc<std::sync::atomic::AtomicBool>>,
}
impl<L> Recorder<L> {
    pub fn new(name: &str, reports: usize) -> (Recorder<L>, Log<L>) {
        let log: Log<L> = Arc::new(Mutex::new(Vec::new()));
        (Recorder { log: log.clone(), name: name.to_string(), reports, dropped: None }, log)
    }
}
impl<L: Clone + Send + 'static> HandlesObservations for Recorder<L> {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        self.log.lock().unwrap().push(Rec { label: o.label().clone(), kind: Kind::of(o), ts: o.timestamp() });
        self.reports
    }
}
impl<L: Send + 'static> PutsSnapshot for Recorder<L> {
    fn put_snapshot(&self, into: &mut Snapshot, _d: bool) {
        into.push(self.name.clone(), self.log.lock().unwrap().len() as u64);
    }
}
impl<L> Drop for Recorder<L> {
    fn drop(&mut self) {
        if let Some(d) = &self.dropped {
            d.store(true, std::sync::atomic::Ordering::SeqCst);
        }
    }
}

// ------------------------------------------------------------ snapshots

pub fn snap<P: PutsSnapshot + ?Sized>(p: &P, descriptive: bool) -> Snapshot {
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, descriptive);
    s
}

/// Exact equality of snapshots, with floats compared by bits.
pub fn same_item(a: &ItemKind, b: &ItemKind) -> bool {
    match (a, b) {
        (ItemKind::Float(x), ItemKind::Float(y)) => x.to_bits() == y.to_bits() || x == y,
        (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => same_snap(x, y),
        _ => a == b,
    }
}
pub fn same_snap(a: &Snapshot, b: &Snapshot) -> bool {
    a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|(x, y)| x.0 == y.0 && same_item(&x.1, &y.1))
}
/// The same, but for how floats were rounded on the way.
pub fn near_item(a: &ItemKind, b: &ItemKind) -> bool {
    match (a, b) {
        (ItemKind::Float(x), ItemKind::Float(y)) => same_item(a, b) || (x - y).abs() <= 1e-7 + 1e-9 * x.abs().max(y.abs()),
        (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => near_snap(x, y),
        _ => same_item(a, b),
    }
}
pub fn near_snap(a: &Snapshot, b: &Snapshot) -> bool {
    a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|(x, y)| x.0 == y.0 && near_item(&x.1, &y.1))
}
/// Numeric reading of an item, whether shown signed or unsigned.
pub fn as_int(i: &ItemKind) -> Option<i128> {
    match i {
        ItemKind::UInt(v) => Some(*v as i128),
        ItemKind::Int(v) => Some(*v as i128),
        _ => None,
    }
}
pub fn get<'a>(s: &'a Snapshot, name: &str) -> Option<&'a ItemKind> {
    s.items.iter().find(|(n, _)| n == name).map(|x| &x.1)
}
pub fn sub<'a>(s: &'a Snapshot, name: &str) -> Option<&'a Snapshot> {
    match get(s, name) {
        Some(ItemKind::Snapshot(x)) => Some(x),
        _ => None,
    }
}
pub fn get_path<'a>(s: &'a Snapshot, path: &[&str]) -> Option<&'a ItemKind> {
    let (last, init) = path.split_last()?;
    let mut cur = s;
    for p in init {
        cur = sub(cur, p)?;
    }
    get(cur, last)
}
pub fn names(s: &Snapshot) -> Vec<String> {
    s.items.iter().map(|x| x.0.clone()).collect()
}
