//! Every instrument as a generated configuration, with a reference model that
//! predicts what its snapshot shows at any time.
use crate::kit::*;
use crate::vclock;
use metrix::instruments::switches::NameAlternation;
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

// ------------------------------------------------------------ expectations

#[derive(Debug, Clone)]
pub enum Exp {
    Item(ItemKind),
    /// an integer, shown signed or unsigned
    Int(i128),
    Bool(bool),
    Float { v: f64, tol: f64 },
    /// a rate: `v`, or zero where the cutoff says so; both if too close to tell
    Rate { v: f64, tol: f64, cutoff: f64 },
    IntRange(i64, i64),
    /// the value must be one of these
    OneOf(Vec<i64>),
    FloatRange(f64, f64),
    Level(Level),
    /// quantiles: within range and ascending
    Ascending { names: Vec<String>, lo: i64, hi: i64 },
    /// a level with anything in it
    Any,
}

#[derive(Debug, Clone, Default)]
pub struct Level(pub Vec<(String, Exp)>);

impl Level {
    pub fn push(&mut self, n: impl Into<String>, e: Exp) {
        self.0.push((n.into(), e))
    }
    pub fn describe(&mut self, name: &str, text: &Option<String>) {
        if let Some(t) = text {
            if !self.0.iter().any(|x| x.0 == name) {
                self.push(name, Exp::Item(ItemKind::Text(t.clone())));
            }
        }
    }
}

pub fn compare(path: &str, got: &Snapshot, want: &Level) -> Result<(), String> {
    let gn: Vec<&str> = got.items.iter().map(|x| x.0.as_str()).collect();
    let wn: Vec<&str> = want.0.iter().map(|x| x.0.as_str()).collect();
    if gn != wn {
        return Err(format!("{}: entries {:?}, expected {:?}", path, gn, wn));
    }
    for ((n, g), (_, w)) in got.items.iter().zip(&want.0) {
        let p = format!("{}/{}", path, n);
        let bad = || Err(format!("{}: shows {:?}, expected {:?}", p, g, w));
        match (g, w) {
            (ItemKind::Snapshot(s), Exp::Level(l)) => compare(&p, s, l)?,
            (ItemKind::Snapshot(s), Exp::Ascending { names, lo, hi }) => {
                let gn: Vec<&str> = s.items.iter().map(|x| x.0.as_str()).collect();
                if gn != names.iter().map(|x| x.as_str()).collect::<Vec<_>>() {
                    return Err(format!("{}: entries {:?}, expected {:?}", p, gn, names));
                }
                let mut prev = *lo as i128;
                for (n, v) in &s.items {
                    match as_int(v) {
                        Some(v) if v >= prev && v <= *hi as i128 => prev = v,
                        _ => return Err(format!("{}/{}: shows {:?}, expected {}..{}", p, n, v, prev, hi)),
                    }
                }
            }
            (ItemKind::Snapshot(_), Exp::Any) => {}
            (g, Exp::Item(w)) => {
                if !same_item(g, w) {
                    return bad();
                }
            }
            (g, Exp::Int(v)) => {
                if as_int(g) != Some(*v) {
                    return bad();
                }
            }
            (ItemKind::Boolean(b), Exp::Bool(v)) => {
                if b != v {
                    return bad();
                }
            }
            (ItemKind::Float(f), Exp::Float { v, tol }) => {
                if !((f - v).abs() <= *tol) && f.to_bits() != v.to_bits() {
                    return bad();
                }
            }
            (ItemKind::Float(f), Exp::Rate { v, tol, cutoff }) => {
                let full = (f - v).abs() <= *tol;
                let zero = *f == 0.0;
                let ok = if (v - cutoff).abs() <= *tol {
                    full || zero
                } else if v < cutoff {
                    zero
                } else {
                    full
                };
                if !ok {
                    return bad();
                }
            }
            (g, Exp::IntRange(lo, hi)) => match as_int(g) {
                Some(v) if v >= *lo as i128 && v <= *hi as i128 => {}
                _ => return bad(),
            },
            (g, Exp::OneOf(vs)) => match as_int(g) {
                Some(v) if vs.iter().any(|x| *x as i128 == v) => {}
                _ => return bad(),
            },
            (ItemKind::Float(f), Exp::FloatRange(lo, hi)) => {
                if !(f >= lo && f <= hi) {
                    return bad();
                }
            }
            _ => return bad(),
        }
    }
    Ok(())
}

// ------------------------------------------------------------ configuration

/// a `Duration` in ns, or the greatest there is
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Dur(pub Option<u64>);
impl Dur {
    pub fn get(self) -> Duration {
        self.0.map(Duration::from_nanos).unwrap_or(Duration::MAX)
    }
    pub fn ns(self) -> u128 {
        self.0.map(|x| x as u128).unwrap_or(Duration::MAX.as_nanos())
    }
}
pub fn dur() -> impl Strategy<Value = Dur> {
    prop_oneof![
        1 => Just(Dur(Some(0))),
        1 => (1u64..5).prop_map(|v| Dur(Some(v))),
        6 => (1u64..8).prop_map(|v| Dur(Some(v * SEC / 2))),
        2 => (1u64..4_000).prop_map(|v| Dur(Some(v * SEC))),
        1 => any::<u64>().prop_map(|v| Dur(Some(v))),
        1 => Just(Dur(None)),
    ]
}
/// how far the clock moves: aligned with what `dur` yields
pub fn step() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => 1u64..5,
        8 => (0u64..8, -1i64..2).prop_map(|(v, d)| (v * SEC / 2).saturating_add_signed(d)),
        2 => (0u64..200).prop_map(|v| v * SEC / 4),
        2 => 0u64..(3 * SEC),
        1 => (0u64..4_000).prop_map(|v| v * SEC),
        1 => (0u64..100_000).prop_map(|v| v * SEC),
    ]
}

/// days, weeks and up to years of nothing
pub fn leap(bits: u32) -> impl Strategy<Value = u64> {
    (36..bits, any::<u64>()).prop_map(|(s, v)| (1u64 << s) + v % (1 << s))
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Alt {
    Pre(String),
    Post(String),
    New(String),
}
impl Alt {
    pub fn name(&self, n: &str) -> String {
        match self {
            Alt::Pre(p) => format!("{}{}", p, n),
            Alt::Post(p) => format!("{}{}", n, p),
            Alt::New(p) => p.clone(),
        }
    }
    fn real(&self) -> NameAlternation {
        match self.clone() {
            Alt::Pre(p) => NameAlternation::Prefix(p),
            Alt::Post(p) => NameAlternation::Postfix(p),
            Alt::New(p) => NameAlternation::Rename(p),
        }
    }
}
fn alt_text() -> impl Strategy<Value = String> {
    prop_oneof![6 => "[aA_ /]{0,3}", 1 => "\\PC{0,4}", 1 => "[a-z_]{3,30}"]
}
pub fn alt() -> impl Strategy<Value = Option<Alt>> {
    proptest::option::of(prop_oneof![
        alt_text().prop_map(Alt::Pre),
        alt_text().prop_map(Alt::Post),
        alt_text().prop_map(Alt::New)
    ])
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rates {
    pub one: bool,
    pub five: bool,
    pub fifteen: bool,
    /// `None`: defaults untouched
    pub cutoff: Option<F>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum SItem {
    I(i64),
    U(u64),
    F(F),
    B(bool),
    T(String),
}
impl SItem {
    pub fn kind(&self) -> ItemKind {
        match self {
            SItem::I(v) => ItemKind::Int(*v),
            SItem::U(v) => ItemKind::UInt(*v),
            SItem::F(v) => ItemKind::Float(v.get()),
            SItem::B(v) => ItemKind::Boolean(*v),
            SItem::T(v) => ItemKind::Text(v.clone()),
        }
    }
}
pub fn sitem() -> impl Strategy<Value = SItem> {
    prop_oneof![
        any_i64().prop_map(SItem::I),
        any_u64().prop_map(SItem::U),
        any_f64().prop_map(SItem::F),
        any::<bool>().prop_map(SItem::B),
        "[a-z]{0,4}".prop_map(SItem::T),
    ]
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum IKind {
    Counter,
    Gauge { track: Option<usize>, unit: Unit, group: bool, init: Option<i64>, init_first: bool },
    Meter(Rates),
    Histogram { unit: Unit, limit: Option<Dur>, reset: bool, show: bool },
    ValueMeter(Rates, Unit),
    Display { reset_after: Option<Dur>, reset_value: Option<SItem> },
    LastOcc { zero: bool },
    Staircase { off: Option<Dur>, invert: bool, alt: Option<Alt> },
    Occ { within: Option<Dur>, invert: bool, alt: Option<Alt> },
    NonOcc { within: Option<Dur>, invert: bool, alt: Option<Alt> },
    Flag { init: Option<bool>, alt: Option<Alt> },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstSpec {
    pub name: String,
    pub title: Option<String>,
    pub desc: Option<String>,
    /// configured with setters instead of builder functions
    pub setters: bool,
    /// every setting was another one first
    #[serde(default)]
    pub twice: bool,
    pub kind: IKind,
}

pub fn rates() -> impl Strategy<Value = Rates> {
    (
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        prop_oneof![
            3 => Just(None),
            2 => Just(Some(0.0)),
            2 => (-20i32..6).prop_map(|e| Some(2f64.powi(e))),
            1 => Just(Some(-1.0)),
            1 => Just(Some(f64::MAX)),
        ],
    )
        .prop_map(|(one, five, fifteen, cutoff)| Rates { one, five, fifteen, cutoff: cutoff.map(|c: f64| F(c.to_bits())) })
}
pub fn gauge_kind() -> impl Strategy<Value = IKind> {
    (
        proptest::option::of(prop_oneof![4 => 0usize..6, 2 => 6usize..70, 1 => 70usize..4000]),
        unit(),
        any::<bool>(),
        proptest::option::of(any_i64()),
        any::<bool>(),
    )
        .prop_map(|(track, unit, group, init, init_first)| IKind::Gauge { track, unit, group, init, init_first })
}
pub fn histogram_kind() -> impl Strategy<Value = IKind> {
    (unit(), proptest::option::of(dur()), any::<bool>(), any::<bool>())
        .prop_map(|(unit, limit, reset, show)| IKind::Histogram { unit, limit, reset, show })
}
pub fn switch_kind() -> impl Strategy<Value = IKind> {
    prop_oneof![
        (proptest::option::of(dur()), any::<bool>(), alt()).prop_map(|(off, invert, alt)| IKind::Staircase { off, invert, alt }),
        (proptest::option::of(dur()), any::<bool>(), alt()).prop_map(|(within, invert, alt)| IKind::Occ { within, invert, alt }),
        (proptest::option::of(dur()), any::<bool>(), alt()).prop_map(|(within, invert, alt)| IKind::NonOcc { within, invert, alt }),
        (proptest::option::of(any::<bool>()), alt()).prop_map(|(init, alt)| IKind::Flag { init, alt }),
    ]
}
pub fn display_kind() -> impl Strategy<Value = IKind> {
    prop_oneof![
        3 => (proptest::option::of(dur()), proptest::option::of(sitem()))
            .prop_map(|(reset_after, reset_value)| IKind::Display { reset_after, reset_value }),
        1 => any::<bool>().prop_map(|zero| IKind::LastOcc { zero }),
    ]
}
pub fn meter_kind() -> impl Strategy<Value = IKind> {
    prop_oneof![rates().prop_map(IKind::Meter), (rates(), unit()).prop_map(|(r, u)| IKind::ValueMeter(r, u))]
}
pub fn any_kind() -> impl Strategy<Value = IKind> {
    prop_oneof![
        2 => Just(IKind::Counter),
        2 => gauge_kind(),
        2 => meter_kind(),
        2 => histogram_kind(),
        1 => display_kind(),
        2 => switch_kind(),
    ]
}
pub fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => prop_oneof![Just("a"), Just("b"), Just("c"), Just("d"), Just("e")].prop_map(String::from),
        1 => prop_oneof![
            Just(""), Just("a/b"), Just("_title"), Just("_active"), Just("_description_a"), Just("_title_b"), Just("count"), Just("current")
        ].prop_map(String::from),
        2 => "[a-z]{1,4}",
        2 => "[aA_ ./>-]{0,5}",
        1 => "\\PC{0,3}",
        1 => "[a-z_]{5,40}",
    ]
}
pub fn text() -> impl Strategy<Value = Option<String>> {
    prop_oneof![4 => Just(None), 3 => "[a-z ]{0,5}".prop_map(Some), 1 => "[A-Z_ \n\t\"/.]{0,6}".prop_map(Some), 1 => "\\PC{0,30}".prop_map(Some)]
}
pub fn spec(kind: impl Strategy<Value = IKind>) -> impl Strategy<Value = InstSpec> {
    (name(), text(), text(), any::<bool>(), prop_oneof![5 => Just(false), 1 => Just(true)], kind).prop_map(
        |(name, title, desc, setters, twice, kind)| InstSpec { name, title, desc, setters, twice, kind },
    )
}

// ------------------------------------------------------------ the real thing

pub enum Real {
    Counter(Counter),
    Gauge(Gauge),
    Meter(Meter),
    Histogram(Histogram),
    ValueMeter(ValueMeter),
    Display(DataDisplay),
    LastOcc(LastOccurrenceTracker),
    Staircase(StaircaseTimer),
    Occ(OccurrenceIndicator),
    NonOcc(NonOccurrenceIndicator),
    Flag(Flag),
}

macro_rules! each {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            Real::Counter($x) => $e,
            Real::Gauge($x) => $e,
            Real::Meter($x) => $e,
            Real::Histogram($x) => $e,
            Real::ValueMeter($x) => $e,
            Real::Display($x) => $e,
            Real::LastOcc($x) => $e,
            Real::Staircase($x) => $e,
            Real::Occ($x) => $e,
            Real::NonOcc($x) => $e,
            Real::Flag($x) => $e,
        }
    };
}

macro_rules! common {
    ($s:expr, $x:ident) => {
        if $s.twice {
            $x = $x.name("another");
            $x.set_name("yet another");
            if $s.title.is_some() {
                $x.set_title("A");
                $x = $x.title("B");
            }
            if $s.desc.is_some() {
                $x = $x.description("A");
                $x.set_description("B");
            }
        }
        if $s.setters {
            $x.set_name($s.name.clone());
            if let Some(t) = &$s.title {
                $x.set_title(t.clone());
            }
            if let Some(t) = &$s.desc {
                $x.set_description(t.clone());
            }
        } else {
            $x = $x.name($s.name.clone());
            if let Some(t) = &$s.title {
                $x = $x.title(t.clone());
            }
            if let Some(t) = &$s.desc {
                $x = $x.description(t.clone());
            }
        }
    };
}
macro_rules! set_rates {
    ($s:expr, $r:expr, $x:ident) => {
        if $s.twice {
            $x.set_one_minute_rate_enabled(!$r.one);
            $x = $x.five_minute_rate_enabled(!$r.five);
            $x.set_fifteen_minute_rate_enabled(!$r.fifteen);
            if $r.cutoff.is_some() {
                $x = $x.lower_cutoff(1.0);
                $x.set_lower_cutoff(2.0);
            }
        }
        if $s.setters || $s.twice {
            $x.set_one_minute_rate_enabled($r.one);
            $x.set_five_minute_rate_enabled($r.five);
            $x.set_fifteen_minute_rate_enabled($r.fifteen);
            if let Some(c) = $r.cutoff {
                $x.set_lower_cutoff(c.get());
            }
        } else {
            // a default left alone is the default
            if !$r.one {
                $x = $x.one_minute_rate_enabled(false);
            }
            if $r.five {
                $x = $x.five_minute_rate_enabled(true);
            }
            if $r.fifteen {
                $x = $x.fifteen_minute_rate_enabled(true);
            }
            if let Some(c) = $r.cutoff {
                $x = $x.lower_cutoff(c.get());
            }
        }
    };
}
macro_rules! set_alt {
    ($s:expr, $a:expr, $x:ident) => {
        if let Some(a) = $a {
            if $s.twice {
                $x.set_show_inverted_renamed("re");
                $x.set_show_inverted_prefixed("pre");
                $x.set_show_inverted_postfixed("post");
                if let Alt::Post(_) = a {
                    $x.set_show_inverted_renamed("re");
                }
                if $s.setters {
                    $x.set_show_inverted(a.real());
                }
            }
            match (a, $s.setters) {
                (Alt::Pre(p), true) => $x.set_show_inverted_prefixed(p.clone()),
                (Alt::Post(p), true) => $x.set_show_inverted_postfixed(p.clone()),
                (Alt::New(p), true) => $x.set_show_inverted_renamed(p.clone()),
                (Alt::Pre(p), false) if p.len() != 1 => $x = $x.show_inverted_prefixed(p.clone()),
                (Alt::Post(p), false) if p.len() != 1 => $x = $x.show_inverted_postfixed(p.clone()),
                (Alt::New(p), false) if p.len() != 1 => $x = $x.show_inverted_renamed(p.clone()),
                (a, false) => $x = $x.show_inverted(a.real()),
            }
        }
    };
}

impl InstSpec {
    pub fn build(&self) -> (Real, Model) {
        let s = self;
        let first = if s.setters { "x".to_string() } else { s.name.clone() };
        let now = vclock::now_ns();
        let real = match &s.kind {
            IKind::Counter => {
                let mut x = if s.twice { Counter::new_with_defaults(first) } else { Counter::new(first) };
                common!(s, x);
                Real::Counter(x)
            }
            IKind::Gauge { track, unit, group, init, init_first } => {
                let mut x = Gauge::new(first);
                common!(s, x);
                if s.setters {
                    x.set_display_time_unit(unit.tu());
                } else if *unit != Unit::Us {
                    // microseconds are the default
                    x = x.display_time_unit(unit.tu());
                }
                if *init_first {
                    if let Some(i) = init {
                        x = x.value(*i);
                    }
                }
                if s.twice {
                    x.set_display_time_unit(if *unit == Unit::Ns { Unit::S.tu() } else { Unit::Ns.tu() });
                    if track.is_some_and(|t| t > 0) {
                        x = x.tracking(7);
                    }
                    x = x.group_values(!*group);
                    x.set_display_time_unit(unit.tu());
                }
                if let Some(t) = track {
                    if s.setters {
                        x.set_tracking(*t);
                    } else {
                        x = x.tracking(*t);
                    }
                }
                if !*init_first {
                    if let Some(i) = init {
                        x = x.value(*i);
                    }
                }
                if *group || s.setters || s.twice {
                    x = x.group_values(*group);
                }
                Real::Gauge(x)
            }
            IKind::Meter(r) => {
                let mut x = if s.twice { Meter::new_with_defaults(first) } else { Meter::new(first) };
                common!(s, x);
                set_rates!(s, r, x);
                Real::Meter(x)
            }
            IKind::ValueMeter(r, unit) => {
                let mut x = if s.twice { ValueMeter::new_with_defaults(first) } else { ValueMeter::new(first) };
                common!(s, x);
                set_rates!(s, r, x);
                if s.twice {
                    x = x.display_time_unit(Unit::S.tu());
                    x.set_display_time_unit(Unit::Ns.tu());
                }
                if s.setters || s.twice {
                    x.set_display_time_unit(unit.tu());
                } else if *unit != Unit::Us {
                    // microseconds are the default
                    x = x.display_time_unit(unit.tu());
                }
                Real::ValueMeter(x)
            }
            IKind::Histogram { unit, limit, reset, show } => {
                let mut x = if s.twice { Histogram::new_with_defaults(first) } else { Histogram::new(first) };
                common!(s, x);
                if s.twice {
                    x = x.display_time_unit(Unit::S.tu());
                    x.set_reset_after_inactivity(!*reset);
                    x.set_show_activity_state(!*show);
                    if limit.is_some() {
                        x = x.inactivity_limit(std::time::Duration::from_nanos(1));
                    }
                }
                if s.setters || s.twice {
                    x.set_display_time_unit(unit.tu());
                    x.set_reset_after_inactivity(*reset);
                    x.set_show_activity_state(*show);
                    if let Some(l) = limit {
                        x.set_inactivity_limit(l.get());
                    }
                } else {
                    if *unit != Unit::Us {
                        // microseconds are the default
                        x = x.display_time_unit(unit.tu());
                    }
                    if !*reset {
                        x = x.reset_after_inactivity(false);
                    }
                    if !*show {
                        x = x.show_activity_state(false);
                    }
                    if let Some(l) = limit {
                        x = x.inactivity_limit(l.get());
                    }
                }
                Real::Histogram(x)
            }
            IKind::Display { reset_after, reset_value } => {
                let mut x = if s.twice { DataDisplay::new_with_defaults(first) } else { DataDisplay::new(first) };
                common!(s, x);
                if s.twice {
                    if reset_after.is_some() {
                        x.set_reset_after(std::time::Duration::from_nanos(1));
                    }
                    if reset_value.is_some() {
                        x = x.reset_value(77);
                        x.set_reset_value("old");
                    }
                }
                if s.setters {
                    if let Some(r) = reset_after {
                        x.set_reset_after(r.get());
                    }
                    if let Some(r) = reset_value {
                        x.set_reset_value(r.kind());
                    }
                } else {
                    if let Some(r) = reset_after {
                        x = x.reset_after(r.get());
                    }
                    if let Some(r) = reset_value {
                        x = x.reset_value(r.kind());
                    }
                }
                Real::Display(x)
            }
            IKind::LastOcc { zero } => {
                let mut x = if s.twice { LastOccurrenceTracker::new_with_defaults(first) } else { LastOccurrenceTracker::new(first) };
                common!(s, x);
                if s.twice {
                    x = x.make_none_zero(!*zero);
                }
                if s.setters || s.twice {
                    x.set_make_none_zero(*zero);
                } else if *zero {
                    x = x.make_none_zero(true);
                }
                Real::LastOcc(x)
            }
            IKind::Staircase { off, invert, alt } => {
                let mut x = if s.twice { StaircaseTimer::new_with_defaults(first) } else { StaircaseTimer::new(first) };
                common!(s, x);
                if s.twice {
                    x.set_invert(!*invert);
                    if off.is_some() {
                        x = x.switch_off_after(std::time::Duration::from_nanos(1));
                    }
                }
                if s.setters || s.twice {
                    x.set_invert(*invert);
                    if let Some(d) = off {
                        x.set_switch_off_after(d.get());
                    }
                } else {
                    if *invert {
                        x.enable_invert();
                    }
                    if let Some(d) = off {
                        x = x.switch_off_after(d.get());
                    }
                }
                set_alt!(s, alt, x);
                Real::Staircase(x)
            }
            IKind::Occ { within, invert, alt } => {
                let mut x = if s.twice { OccurrenceIndicator::new_with_defaults(first) } else { OccurrenceIndicator::new(first) };
                common!(s, x);
                if s.twice {
                    x = x.invert_enabled(!*invert);
                    if within.is_some() {
                        x = x.if_happened_within(std::time::Duration::from_nanos(1));
                    }
                }
                if s.setters || s.twice {
                    x.set_invert_enabled(*invert);
                    if let Some(d) = within {
                        x.set_if_happened_within(d.get());
                    }
                } else {
                    if *invert {
                        x = x.inverted();
                    }
                    if let Some(d) = within {
                        x = x.if_happened_within(d.get());
                    }
                }
                set_alt!(s, alt, x);
                Real::Occ(x)
            }
            IKind::NonOcc { within, invert, alt } => {
                let mut x = if s.twice { NonOccurrenceIndicator::new_with_defaults(first) } else { NonOccurrenceIndicator::new(first) };
                common!(s, x);
                if s.twice {
                    x = x.invert_enabled(!*invert);
                    if within.is_some() {
                        x = x.if_not_happened_within(std::time::Duration::from_nanos(1));
                    }
                }
                if s.setters || s.twice {
                    x.set_invert_enabled(*invert);
                    if let Some(d) = within {
                        x.set_if_not_happened_within(d.get());
                    }
                } else {
                    if *invert {
                        x = x.inverted();
                    }
                    if let Some(d) = within {
                        x = x.if_not_happened_within(d.get());
                    }
                }
                set_alt!(s, alt, x);
                Real::NonOcc(x)
            }
            IKind::Flag { init, alt } => {
                let mut x = match init {
                    Some(i) if s.setters => Flag::new_with_state(first, *i),
                    _ => Flag::new(first),
                };
                common!(s, x);
                if let Some(i) = init {
                    if s.twice {
                        x = x.state(!*i);
                    }
                    if !s.setters || s.twice {
                        x = x.state(*i);
                    }
                }
                set_alt!(s, alt, x);
                Real::Flag(x)
            }
        };
        (real, Model::new(self, now))
    }
}

impl Real {
    pub fn update(&mut self, u: &Update) -> usize {
        each!(self, x => x.update(u))
    }
    pub fn snap(&self, descriptive: bool) -> Snapshot {
        each!(self, x => snap(x, descriptive))
    }
}
impl Updates for Real {
    fn update(&mut self, with: &Update) -> usize {
        each!(self, x => x.update(with))
    }
}
impl PutsSnapshot for Real {
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
        each!(self, x => x.put_snapshot(into, descriptive))
    }
}
impl Instrument for Real {}

// ------------------------------------------------------------ the models

/// How many instruments an update may report.
pub type Reported = (usize, usize);

#[derive(Debug, Clone)]
pub struct Model {
    pub spec: InstSpec,
    created: u64,
    st: State,
}

#[derive(Debug, Clone)]
enum State {
    Counter(u64),
    Gauge { value: Option<i64>, tracked: Vec<(u64, i64)>, track: Option<usize> },
    Meter(EwmaModel),
    Histogram { samples: Vec<(f64, i64)>, count: u64, start: u64, last_update: u64, vague: bool },
    Display { value: Option<ItemKind>, at: Option<u64> },
    Last(Option<u64>),
    NonOcc(u64),
    Flag(Option<bool>),
}

#[derive(Debug, Clone)]
pub struct EwmaModel {
    start: u64,
    ticks: u64,
    pub total: i64,
    uncounted: i64,
    /// per second
    rate: [f64; 3],
    /// largest rate ever, for the tolerance
    scale: f64,
}
const MINUTES: [f64; 3] = [1.0, 5.0, 15.0];
impl EwmaModel {
    pub fn new(now: u64) -> EwmaModel {
        EwmaModel { start: now, ticks: 0, total: 0, uncounted: 0, rate: [0.0; 3], scale: 0.0 }
    }
    pub fn tick(&mut self, now: u64) {
        let due = (now - self.start) / (5 * SEC);
        let n = due - self.ticks;
        if n == 0 {
            return;
        }
        let i = self.uncounted as f64 / 5.0;
        self.uncounted = 0;
        self.scale = self.scale.max(i.abs());
        for (k, m) in MINUTES.iter().enumerate() {
            // weight of the past after one tick
            let keep = (-5.0 / 60.0 / m).exp();
            self.rate[k] = if self.ticks == 0 { i } else { i * (1.0 - keep) + self.rate[k] * keep };
            self.rate[k] *= keep.powf((n - 1) as f64);
        }
        self.ticks = due;
    }
    pub fn mark(&mut self, n: i64, now: u64) {
        self.tick(now);
        self.total = self.total.saturating_add(n);
        self.uncounted = self.uncounted.saturating_add(n);
    }
    pub fn rate(&self, k: usize) -> f64 {
        self.rate[k]
    }
    fn expect(&self, r: &Rates) -> Level {
        let mut l = Level::default();
        l.push("count", Exp::Int(self.total as i128));
        let cutoff = r.cutoff.map(|c| c.get()).unwrap_or(0.001);
        for (k, (on, name)) in [(r.one, "one_minute"), (r.five, "five_minutes"), (r.fifteen, "fifteen_minutes")].into_iter().enumerate() {
            if on {
                let v = self.rate[k];
                // rounding errors of a long chain of ticks
                let tol = self.scale * 1e-12 + v.abs() * 1e-7 + 1e-300;
                let mut s = Level::default();
                s.push("rate", Exp::Rate { v, tol, cutoff });
                l.push(name, Exp::Level(s));
            }
        }
        l
    }
}

/// What a value is as a gauge or histogram value.
pub fn as_value(v: Val, unit: Unit) -> Option<i64> {
    match v {
        Val::I(v) => Some(v),
        Val::U(v) => i64::try_from(v).ok(),
        Val::F(f) => {
            let r = f.get().round();
            // exact comparison in integers
            if r.is_finite() && r.abs() < 1e30 {
                i64::try_from(r as i128).ok()
            } else {
                None
            }
        }
        Val::B(_) | Val::Chg(_) => None,
        Val::D(t, u) => Some(convert_units(t, u, unit).min(i64::MAX as u64) as i64),
    }
}

/// The sample holds this many values,
const SAMPLE: usize = 1028;
/// and values lose weight at this rate per second.
const DECAY: f64 = 0.015;

impl Model {
    pub fn new(spec: &InstSpec, now: u64) -> Model {
        let st = match &spec.kind {
            IKind::Counter => State::Counter(0),
            IKind::Gauge { track, init, init_first, .. } => {
                let track = track.filter(|t| *t > 0);
                let tracked = if !*init_first && track.is_some() { init.iter().map(|v| (0, *v)).collect() } else { vec![] };
                State::Gauge { value: *init, tracked, track }
            }
            IKind::Meter(_) | IKind::ValueMeter(..) => State::Meter(EwmaModel::new(now)),
            IKind::Histogram { .. } => {
                State::Histogram { samples: vec![], count: 0, start: now, last_update: now, vague: false }
            }
            IKind::Display { reset_value, .. } => State::Display { value: reset_value.as_ref().map(SItem::kind), at: None },
            IKind::LastOcc { .. } | IKind::Staircase { .. } | IKind::Occ { .. } => State::Last(None),
            IKind::NonOcc { .. } => State::NonOcc(now),
            IKind::Flag { init, .. } => State::Flag(*init),
        };
        Model { spec: spec.clone(), created: now, st }
    }

    pub fn gauge_value(&self) -> Option<i64> {
        match &self.st {
            State::Gauge { value, .. } => *value,
            _ => None,
        }
    }
    /// When a display was last updated.
    pub fn updated_at(&self) -> Option<u64> {
        match &self.st {
            State::Display { at, .. } => *at,
            _ => None,
        }
    }
    pub fn happened(&self) -> bool {
        matches!(self.st, State::Last(Some(_)))
    }
    /// How long a histogram has been.
    pub fn silent(&self, now: u64) -> u64 {
        match &self.st {
            State::Histogram { last_update, .. } => now - *last_update,
            _ => 0,
        }
    }
    pub fn start_tracking(&mut self, n: usize, now: u64) {
        if let State::Gauge { track, tracked, .. } = &mut self.st {
            *track = Some(n);
            tracked.clear();
        }
        self.created = now;
    }
    pub fn force_display(&mut self, v: ItemKind) {
        if let State::Display { value, .. } = &mut self.st {
            *value = Some(v);
        }
    }
    pub fn seconds_tracked(&self, now: u64) -> (usize, usize) {
        match &self.st {
            State::Gauge { tracked, track: Some(n), .. } => {
                let idx = (now - self.created) / SEC;
                let w: Vec<u64> = tracked.iter().map(|x| x.0).filter(|i| idx - i < *n as u64).collect();
                let mut d = w.clone();
                d.dedup();
                (d.len(), tracked.len() - w.len())
            }
            _ => (0, 0),
        }
    }
    pub fn ewma(&self) -> Option<&EwmaModel> {
        match &self.st {
            State::Meter(e) => Some(e),
            _ => None,
        }
    }
    pub fn ticks(&self) -> u64 {
        self.ewma().map(|e| e.ticks).unwrap_or(0)
    }

    pub fn update(&mut self, k: Kind, now: u64) -> Reported {
        match (&self.spec.kind, &mut self.st) {
            (IKind::Counter, State::Counter(c)) => {
                *c = c.saturating_add(k.count());
                (1, 1)
            }
            (IKind::Gauge { unit, .. }, State::Gauge { value, tracked, track }) => {
                let Kind::Value(v) = k else { return (0, 0) };
                let next = match v {
                    Val::Chg(d) => Some(value.unwrap_or(0).saturating_add(d)),
                    v => as_value(v, *unit),
                };
                match next {
                    Some(n) => {
                        *value = Some(n);
                        if let Some(t) = track {
                            let idx = (now - self.created) / SEC;
                            tracked.retain(|x| idx - x.0 < *t as u64);
                            tracked.push((idx, n));
                        }
                        (1, 1)
                    }
                    None => (0, 1),
                }
            }
            (IKind::Meter(_), State::Meter(e)) => match k {
                Kind::Many(0) => {
                    e.tick(now);
                    (0, 1)
                }
                k => {
                    e.mark(k.count().min(i64::MAX as u64) as i64, now);
                    (1, 1)
                }
            },
            (IKind::ValueMeter(_, unit), State::Meter(e)) => {
                let Kind::Value(v) = k else { return (0, 0) };
                match as_value(v, *unit) {
                    Some(v) => {
                        e.mark(v, now);
                        (1, 1)
                    }
                    None => (0, 0),
                }
            }
            (IKind::Histogram { unit, limit, reset, .. }, State::Histogram { samples, count, start, last_update, vague }) => {
                let Kind::Value(v) = k else { return (0, 0) };
                let Some(v) = as_value(v, *unit) else { return (0, 0) };
                if let Some(l) = limit {
                    if *reset && (now - *last_update) as u128 > l.ns() {
                        samples.clear();
                        *count = 0;
                        *start = now;
                        *vague = false;
                    }
                }
                *count += 1;
                *last_update = now;
                // the sampler rescales its weights every hour
                if now - *start >= 3600 * SEC {
                    let factor = (-DECAY * ((now - *start) / SEC) as f64).exp();
                    for s in samples.iter_mut() {
                        s.0 *= factor;
                        *vague |= s.0 < 1e-200;
                    }
                    *start = now;
                }
                *vague |= samples.len() >= SAMPLE;
                samples.push(((DECAY * ((now - *start) / SEC) as f64).exp(), v));
                (1, 1)
            }
            (IKind::Display { .. }, State::Display { value, at }) => {
                let Kind::Value(v) = k else { return (0, 0) };
                let item = match v {
                    Val::I(v) => ItemKind::Int(v),
                    Val::U(v) => ItemKind::UInt(v),
                    Val::F(v) => ItemKind::Float(v.get()),
                    Val::B(v) => ItemKind::Boolean(v),
                    Val::D(..) | Val::Chg(_) => return (0, 0),
                };
                *value = Some(item);
                *at = Some(now);
                (1, 1)
            }
            (_, State::Last(l)) => {
                *l = Some(now);
                (1, 1)
            }
            (_, State::NonOcc(l)) => {
                *l = now;
                (1, 1)
            }
            (_, State::Flag(f)) => {
                *f = Some(match k {
                    Kind::Value(Val::B(b)) => b,
                    Kind::Value(Val::I(v)) => v != 0,
                    Kind::Value(Val::U(v)) => v != 0,
                    _ => return (0, 0),
                });
                (1, 1)
            }
            _ => unreachable!(),
        }
    }

    pub fn switch_state(&self, now: u64) -> Option<bool> {
        let d = |d: &Option<Dur>| d.map(|d| d.ns()).unwrap_or(60 * SEC as u128);
        let (on, invert) = match (&self.spec.kind, &self.st) {
            (IKind::Staircase { off, invert, .. }, State::Last(l)) => (l.is_some_and(|l| (now - l) as u128 <= d(off)), *invert),
            (IKind::Occ { within, invert, .. }, State::Last(l)) => (l.is_some_and(|l| ((now - l) as u128) < d(within)), *invert),
            (IKind::NonOcc { within, invert, .. }, State::NonOcc(l)) => ((now - l) as u128 >= d(within), *invert),
            (IKind::Flag { .. }, State::Flag(f)) => ((*f)?, false),
            _ => return None,
        };
        Some(on != invert)
    }

    pub fn display_value(&self, now: u64) -> Option<ItemKind> {
        match (&self.spec.kind, &self.st) {
            (IKind::Display { reset_after, reset_value }, State::Display { value, at }) => match (reset_after, at) {
                (Some(r), Some(at)) if (now - at) as u128 > r.ns() => reset_value.as_ref().map(SItem::kind),
                _ => value.clone(),
            },
            _ => None,
        }
    }

    pub fn expect(&mut self, into: &mut Level, descriptive: bool, now: u64) {
        let name = self.spec.name.clone();
        if descriptive {
            into.describe(&format!("_title_{}", name), &self.spec.title);
            into.describe(&format!("_description_{}", name), &self.spec.desc);
        }
        let switch = self.switch_state(now);
        let display = self.display_value(now);
        match (&self.spec.kind, &mut self.st) {
            (IKind::Counter, State::Counter(c)) => into.push(name, Exp::Int(*c as i128)),
            (IKind::Gauge { group, .. }, State::Gauge { value, tracked, track }) => {
                let mut l = Level::default();
                let prefix = if *group { String::new() } else { format!("{}_", name) };
                if let Some(v) = value {
                    l.push(if *group { "current" } else { name.as_str() }, Exp::Int(*v as i128));
                    if let Some(n) = track {
                        let idx = (now - self.created) / SEC;
                        let w: Vec<(u64, i64)> = tracked.iter().copied().filter(|x| idx - x.0 < *n as u64).collect();
                        stats(&w, *v, &prefix, &mut l);
                    }
                }
                if *group {
                    into.push(name, Exp::Level(l));
                } else {
                    into.0.extend(l.0);
                }
            }
            (IKind::Meter(r) | IKind::ValueMeter(r, _), State::Meter(e)) => {
                e.tick(now);
                into.push(name, Exp::Level(e.expect(r)));
            }
            (IKind::Histogram { limit, show, .. }, State::Histogram { samples, count, last_update, vague, .. }) => {
                let mut l = Level::default();
                let active = limit.map(|d| ((now - *last_update) as u128) < d.ns()).unwrap_or(true);
                if limit.is_some() && *show {
                    l.push("_inactive", Exp::Bool(!active));
                    l.push("_active", Exp::Bool(active));
                }
                if active {
                    histogram(samples, *count, *vague, &mut l);
                }
                into.push(name, Exp::Level(l));
            }
            (IKind::Display { .. }, _) => {
                if let Some(v) = display {
                    // integers may be shown signed or unsigned
                    let e = match as_int(&v) {
                        Some(i) => Exp::Int(i),
                        None => Exp::Item(v),
                    };
                    into.push(name, e);
                }
            }
            (IKind::LastOcc { zero }, State::Last(l)) => match l {
                Some(l) => into.push(name, Exp::Int(((now - *l) / SEC) as i128)),
                None if *zero => into.push(name, Exp::Int(0)),
                None => {}
            },
            (IKind::Staircase { alt, .. } | IKind::Occ { alt, .. } | IKind::NonOcc { alt, .. } | IKind::Flag { alt, .. }, _) => {
                if let Some(s) = switch {
                    into.push(name.clone(), Exp::Bool(s));
                    if let Some(a) = alt {
                        into.push(a.name(&name), Exp::Bool(!s));
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}

fn avg(v: impl Iterator<Item = i64>) -> Exp {
    let (mut n, mut s, mut a) = (0u64, 0i128, 0f64);
    for x in v {
        n += 1;
        s += x as i128;
        a = a.max((x as f64).abs());
    }
    Exp::Float { v: s as f64 / n as f64, tol: a * 1e-9 }
}

/// The statistics of a tracking gauge, from scratch.
fn stats(w: &[(u64, i64)], current: i64, prefix: &str, l: &mut Level) {
    let p = |n: &str| format!("{}{}", prefix, n);
    let mut seconds: Vec<Vec<i64>> = Vec::new();
    let mut last = None;
    for (i, v) in w {
        if last != Some(*i) {
            seconds.push(vec![]);
            last = Some(*i);
        }
        seconds.last_mut().unwrap().push(*v);
    }
    if seconds.is_empty() {
        seconds.push(vec![current]);
    }
    let peaks: Vec<i64> = seconds.iter().map(|s| *s.iter().max().unwrap()).collect();
    let bottoms: Vec<i64> = seconds.iter().map(|s| *s.iter().min().unwrap()).collect();
    l.push(p("peak"), Exp::Int(*peaks.iter().max().unwrap() as i128));
    l.push(p("peak_min"), Exp::Int(*peaks.iter().min().unwrap() as i128));
    l.push(p("peak_avg"), avg(peaks.iter().copied()));
    l.push(p("bottom"), Exp::Int(*bottoms.iter().min().unwrap() as i128));
    l.push(p("bottom_max"), Exp::Int(*bottoms.iter().max().unwrap() as i128));
    l.push(p("bottom_avg"), avg(bottoms.iter().copied()));
    l.push(p("avg"), avg(seconds.iter().flatten().copied()));
}

pub const QUANTILES: [(&str, f64); 7] =
    [("p25", 0.25), ("p50", 0.5), ("p75", 0.75), ("p95", 0.95), ("p98", 0.98), ("p99", 0.99), ("p999", 0.999)];

fn histogram(samples: &[(f64, i64)], count: u64, vague: bool, l: &mut Level) {
    l.push("count", Exp::Int(count as i128));
    if count == 0 {
        return;
    }
    let lo = samples.iter().map(|x| x.1).min().unwrap();
    let hi = samples.iter().map(|x| x.1).max().unwrap();
    let big = (lo as f64).abs().max((hi as f64).abs());
    if vague {
        // more than the sample holds, or so old that nothing is left of it
        let slack = big * 1e-9;
        l.push("max", Exp::IntRange(lo, hi));
        l.push("min", Exp::IntRange(lo, hi));
        l.push("mean", Exp::FloatRange(lo as f64 - slack, hi as f64 + slack));
        l.push("stddev", Exp::FloatRange(0.0, (hi as f64 - lo as f64) + slack));
        l.push("quantiles", Exp::Ascending { names: QUANTILES.iter().map(|q| q.0.to_string()).collect(), lo, hi });
        return;
    }
    l.push("max", Exp::Int(hi as i128));
    l.push("min", Exp::Int(lo as i128));
    let sum: f64 = samples.iter().map(|x| x.0).sum();
    let mean: f64 = samples.iter().map(|s| s.1 as f64 * s.0).sum::<f64>() / sum;
    let var: f64 = samples.iter().map(|s| (s.1 as f64 - mean).powi(2) * s.0).sum::<f64>() / sum;
    l.push("mean", Exp::Float { v: mean, tol: big * 1e-9 });
    let sd = if samples.len() <= 1 { 0.0 } else { var.sqrt() };
    l.push("stddev", Exp::Float { v: sd, tol: big * 1e-7 });
    let mut q = Level::default();
    let mut vals: Vec<(i64, f64)> = samples.iter().map(|s| (s.1, s.0 / sum)).collect();
    vals.sort_by_key(|x| x.0);
    // per distinct value: where its weight ends, its lightest and heaviest sample
    let mut groups: Vec<(i64, f64, f64, f64)> = Vec::new();
    let mut end = 0.0;
    for (v, w) in vals {
        end += w;
        match groups.last_mut() {
            Some(g) if g.0 == v => {
                g.1 = end;
                g.2 = g.2.min(w);
                g.3 = g.3.max(w);
            }
            _ => groups.push((v, end, w, w)),
        }
    }
    let eps = 1e-9;
    for (n, p) in QUANTILES {
        let mut ok = Vec::new();
        for (i, g) in groups.iter().enumerate() {
            let reached = g.1 - g.2 >= p - eps || i + 1 == groups.len();
            let not_before = i == 0 || groups[i - 1].1 - groups[i - 1].3 < p + eps;
            if reached && not_before {
                ok.push(g.0);
            }
        }
        q.push(n, Exp::OneOf(ok));
    }
    l.push("quantiles", Exp::Level(q));
}
