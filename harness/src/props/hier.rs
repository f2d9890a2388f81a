//! Whole hierarchies (mounts, processors, cockpits, panels, instruments,
//! handlers, snapshooters) as generated configurations with a reference model.
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use metrix::attached_mount::AttachedMount;
use metrix::cockpit::Cockpit;
use metrix::driver::{DriverBuilder, TelemetryDriver};
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------ label filters

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum FilterSpec {
    Nothing(u8),
    All(u8),
    One(u8, u8),
    Tuple(Vec<u8>),
    Many(Vec<u8>),
    /// labels whose bit (modulo 32) is set
    Pred(u32, u8),
    /// that filter and then `accept_another` for each
    More(Box<FilterSpec>, Vec<u8>),
}

impl FilterSpec {
    pub fn accepts(&self, l: u8) -> bool {
        match self {
            FilterSpec::Nothing(_) => false,
            FilterSpec::All(_) => true,
            FilterSpec::One(a, _) => *a == l,
            FilterSpec::Tuple(v) | FilterSpec::Many(v) => v.contains(&l),
            FilterSpec::Pred(m, _) => bit(*m, l),
            FilterSpec::More(f, v) => f.accepts(l) || v.contains(&l),
        }
    }
    pub fn real(&self) -> LabelFilter<u8> {
        match self {
            FilterSpec::Nothing(how) => match how % 3 {
                0 => LabelFilter::accept_none(),
                1 => AcceptNoLabel.into(),
                _ => Vec::new().into(),
            },
            FilterSpec::All(how) => match how % 3 {
                0 => LabelFilter::accept_all(),
                1 => AcceptAllLabels.into(),
                _ => LabelFilter::default(),
            },
            FilterSpec::One(l, how) => match how % 4 {
                0 => LabelFilter::new(*l),
                1 => (*l).into(),
                2 => AcceptOneLabel(*l).into(),
                _ => L(*l).into(),
            },
            FilterSpec::Tuple(v) => match v[..] {
                [a, b] => (a, b).into(),
                [a, b, c] => (a, b, c).into(),
                [a, b, c, d] => (a, b, c, d).into(),
                [a, b, c, d, e] => (a, b, c, d, e).into(),
                _ => v.clone().into(),
            },
            FilterSpec::Many(v) => v.clone().into(),
            FilterSpec::Pred(m, how) => {
                let m = *m;
                match how % 3 {
                    0 => LabelFilter::predicate(move |l| bit(m, *l)),
                    1 => LabelPredicate(move |l: &u8| bit(m, *l)).into(),
                    _ => LP(move |l: &u8| bit(m, *l)).into(),
                }
            }
            FilterSpec::More(f, v) => {
                let mut f = f.real();
                for l in v {
                    f.accept_another(*l);
                }
                f
            }
        }
    }
}
fn bit(m: u32, l: u8) -> bool {
    m >> (l % 32) & 1 == 1
}
pub fn label() -> impl Strategy<Value = u8> {
    prop_oneof![12 => 0u8..6, 3 => 6u8..40, 1 => any::<u8>()]
}
pub fn filter() -> BoxedStrategy<FilterSpec> {
    let mask = || prop_oneof![any::<u32>(), any::<u32>().prop_map(|m| m | 0x3f), (0u32..64)];
    let base = || {
        prop_oneof![
            1 => any::<u8>().prop_map(FilterSpec::Nothing),
            3 => any::<u8>().prop_map(FilterSpec::All),
            3 => (label(), any::<u8>()).prop_map(|(l, h)| FilterSpec::One(l, h)),
            3 => vec(label(), 2..6).prop_map(FilterSpec::Tuple),
            2 => vec(label(), 0..9).prop_map(FilterSpec::Many),
            1 => vec(label(), 9..40).prop_map(FilterSpec::Many),
            2 => (mask(), any::<u8>()).prop_map(|(m, h)| FilterSpec::Pred(m, h)),
        ]
    };
    prop_oneof![
        5 => base(),
        1 => (base(), vec(label(), 0..9)).prop_map(|(f, v)| FilterSpec::More(Box::new(f), v)),
    ]
    .boxed()
}

// ------------------------------------------------------------ specifications

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Bare,
    Filter(FilterSpec, u8),
    /// gauges only, otherwise like `Filter`
    Deltas(FilterSpec, u8),
    IncDec(FilterSpec, FilterSpec, u8),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Modify {
    /// the labels it applies to
    pub mask: u32,
    /// `None`: another kind made from the original
    pub to: Option<Kind>,
}
impl Modify {
    pub fn apply(&self, l: u8, k: Kind) -> Kind {
        if !bit(self.mask, l) {
            return k;
        }
        match (self.to, k) {
            (Some(k), _) => k,
            (None, Kind::One) => Kind::Many(2),
            (None, Kind::Many(n)) => Kind::Value(Val::U(n)),
            (None, Kind::Value(Val::I(v))) => Kind::Value(Val::Chg(v)),
            (None, Kind::Value(Val::U(v))) => Kind::Many(v),
            (None, Kind::Value(_)) => Kind::One,
        }
    }
    fn fun(&self) -> impl Fn(&u8, Update) -> Update + Send + 'static {
        let me = self.clone();
        move |l, u| {
            let (k, ts) = match u {
                Update::Observation(ts) => (Kind::One, ts),
                Update::Observations(n, ts) => (Kind::Many(n), ts),
                Update::ObservationWithValue(v, ts) => (Kind::Value(Val::from_ov(&v)), ts),
            };
            me.apply(*l, k).update(ts)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstNode {
    pub spec: InstSpec,
    pub mode: Mode,
    pub modify: Option<Modify>,
    /// added with the panel's function for its type
    pub typed: bool,
}
/// Shows fixed items, and whether it was asked for a descriptive snapshot.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Fixed(pub Vec<(String, SItem)>);
impl PutsSnapshot for Fixed {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        into.push("fixed".to_string(), d);
        for (n, i) in &self.0 {
            into.push(n.clone(), i.kind());
        }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum SnapSpec {
    Const { name: String, title: Option<String>, desc: Option<String>, rename: bool, item: SItem },
    Poll { name: String, title: Option<String>, desc: Option<String>, rename: bool, group: Option<bool>, shows: Fixed },
    Plain(Fixed),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct RecSpec {
    pub name: String,
    pub reports: u8,
}
/// Name, descriptives and inactivity configuration of a component.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Head {
    pub name: Option<String>,
    pub title: Option<String>,
    pub desc: Option<String>,
    pub limit: Option<Dur>,
    /// `None`: left at its default, which is to show it
    pub show: Option<bool>,
    pub setters: bool,
    /// every setting was another one first
    #[serde(default)]
    pub twice: bool,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum PanelItem {
    Inst(InstNode),
    Handler(NodeSpec),
    Snap(SnapSpec),
    Panel(PanelSpec),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct PanelSpec {
    pub head: Head,
    pub filter: FilterSpec,
    pub items: Vec<PanelItem>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum CockpitItem {
    Panel(PanelSpec),
    Handler(NodeSpec),
    Snap(SnapSpec),
    /// directly, by name
    RemovePanel(String),
    /// changes a panel that is already there
    Edit(u8, PanelEdit),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum PanelEdit {
    Name(String),
    Title(String),
    Desc(String),
    Limit(Dur),
    Show(bool),
    Add(PanelItem, bool),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct CockpitSpec {
    pub head: Head,
    pub items: Vec<CockpitItem>,
}
/// Anything that handles observations.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum NodeSpec {
    Inst(InstNode),
    Rec(RecSpec),
    Panel(PanelSpec),
    Cockpit(CockpitSpec),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TeleItem {
    Cockpit(CockpitSpec),
    Handler(NodeSpec),
    Snap(SnapSpec),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TeleSpec {
    /// without title and description, which cannot be set
    pub head: Head,
    pub cap: Option<u8>,
    pub items: Vec<TeleItem>,
}
/// A processor that records how it was driven.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SpySpec {
    pub name: String,
    pub outcomes: Vec<(u32, u32, u32, u32)>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum ProcSpec {
    Tele(TeleSpec),
    Mount(MountSpec),
    Spy(SpySpec),
    Driver(DriverSpec),
}
/// How a driver is configured.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DCfg {
    pub name: Option<String>,
    pub title: Option<String>,
    pub desc: Option<String>,
    /// `None`: left at its default
    pub strat: Option<Strat>,
    pub metrics: Option<bool>,
    pub how: u8,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DriverSpec {
    pub cfg: DCfg,
    pub items: Vec<MountItem>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum MountItem {
    Proc(ProcSpec),
    Snap(SnapSpec),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct MountSpec {
    pub name: Option<String>,
    pub limit: Option<Dur>,
    pub items: Vec<MountItem>,
    /// entered into its parent with `attached_mount`
    pub attached: bool,
    pub setters: bool,
}

// ------------------------------------------------------------ generators

#[derive(Debug, Clone, Copy)]
pub struct G {
    /// of ten components have an inactivity limit
    pub limits: u32,
    pub kinds: fn() -> BoxedStrategy<IKind>,
    pub attached: bool,
    pub spies: bool,
    /// of ten observation kinds are tame
    pub tame: bool,
    pub ops: usize,
    pub structural: u32,
}
pub fn all_kinds() -> BoxedStrategy<IKind> {
    any_kind().boxed()
}
/// Instruments with little configuration.
pub fn plain_kinds() -> BoxedStrategy<IKind> {
    prop_oneof![
        3 => Just(IKind::Counter),
        2 => Just(IKind::Gauge { track: None, unit: Unit::Us, group: false, init: None, init_first: false }),
        1 => Just(IKind::Meter(Rates { one: true, five: false, fifteen: false, cutoff: None })),
        1 => Just(IKind::Histogram { unit: Unit::Us, limit: None, reset: false, show: true }),
        1 => Just(IKind::Display { reset_after: None, reset_value: None }),
        1 => Just(IKind::Flag { init: Some(false), alt: None }),
    ]
    .boxed()
}
pub fn comp_name() -> impl Strategy<Value = String> {
    prop_oneof![
        40 => prop_oneof![Just("a"), Just("b"), Just("c")].prop_map(String::from),
        4 => prop_oneof![Just(""), Just("a/b"), Just("_title"), Just("A"), Just("aa")].prop_map(String::from),
        4 => "[a-z]{1,3}",
        4 => "[abAB_/ ]{0,4}",
        2 => "\\PC{0,3}",
        1 => "[aäß€]{10,80}",
        1 => "[a-c]{8,70}",
    ]
}
fn some_in_ten<S: Strategy + 'static>(n: u32, s: S) -> impl Strategy<Value = Option<S::Value>>
where
    S::Value: Clone + std::fmt::Debug + 'static,
{
    let some = s.prop_map(Some).boxed();
    match n {
        0 => Just(None).boxed(),
        10.. => some,
        n => prop_oneof![10 - n => Just(None), n => some].boxed(),
    }
}
fn head(g: G) -> impl Strategy<Value = Head> {
    (
        some_in_ten(7, comp_name()),
        text(),
        text(),
        some_in_ten(g.limits, dur()),
        prop_oneof![3 => Just(None), 1 => Just(Some(true)), 2 => Just(Some(false))],
        any::<bool>(),
        prop_oneof![5 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(name, title, desc, limit, show, setters, twice)| Head { name, title, desc, limit, show, setters, twice })
}
fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![
        3 => Just(Mode::Bare),
        5 => (filter(), any::<u8>()).prop_map(|(f, h)| Mode::Filter(f, h)),
        1 => (filter(), any::<u8>()).prop_map(|(f, h)| Mode::Deltas(f, h)),
        1 => (filter(), filter(), any::<u8>()).prop_map(|(f, g, h)| Mode::IncDec(f, g, h)),
    ]
}
pub fn inst_node(g: G) -> impl Strategy<Value = InstNode> {
    (
        spec((g.kinds)()),
        mode(),
        some_in_ten(2, (prop_oneof![Just(u32::MAX), any::<u32>()], proptest::option::of(tame_kind())).prop_map(|(mask, to)| Modify { mask, to })),
        any::<bool>(),
    )
        .prop_map(|(spec, mode, modify, typed)| InstNode { spec, mode, modify, typed })
}
fn fixed() -> impl Strategy<Value = Fixed> {
    vec((name(), sitem()), 0..3).prop_map(Fixed)
}
pub fn snap_spec() -> impl Strategy<Value = SnapSpec> {
    prop_oneof![
        (name(), text(), text(), any::<bool>(), sitem())
            .prop_map(|(name, title, desc, rename, item)| SnapSpec::Const { name, title, desc, rename, item }),
        (name(), text(), text(), any::<bool>(), proptest::option::of(any::<bool>()), fixed())
            .prop_map(|(name, title, desc, rename, group, shows)| SnapSpec::Poll { name, title, desc, rename, group, shows }),
        fixed().prop_map(SnapSpec::Plain),
    ]
}
fn rec_spec() -> impl Strategy<Value = RecSpec> {
    (name(), prop_oneof![3 => 0u8..3, 1 => any::<u8>()]).prop_map(|(name, reports)| RecSpec { name, reports })
}
pub fn node(g: G, depth: u32) -> BoxedStrategy<NodeSpec> {
    if depth == 0 {
        prop_oneof![2 => rec_spec().prop_map(NodeSpec::Rec), 3 => inst_node(g).prop_map(NodeSpec::Inst)].boxed()
    } else {
        prop_oneof![
            4 => rec_spec().prop_map(NodeSpec::Rec),
            5 => inst_node(g).prop_map(NodeSpec::Inst),
            2 => panel(g, depth - 1).prop_map(NodeSpec::Panel),
            1 => cockpit(g, depth - 1).prop_map(NodeSpec::Cockpit),
        ]
        .boxed()
    }
}
/// Mostly a few, now and then many simple ones.
fn crowd<T: std::fmt::Debug + Clone + 'static>(few: impl Strategy<Value = Vec<T>> + 'static, leaf: impl Strategy<Value = T> + 'static) -> impl Strategy<Value = Vec<T>> {
    prop_oneof![24 => few, 1 => vec(leaf, 8..40)]
}
fn small_panel(g: G) -> impl Strategy<Value = PanelSpec> {
    (head(g), filter(), vec(rec_spec().prop_map(|r| PanelItem::Handler(NodeSpec::Rec(r))), 0..2)).prop_map(|(head, filter, items)| PanelSpec { head, filter, items })
}
fn small_cockpit(g: G) -> impl Strategy<Value = CockpitSpec> {
    (head(g), vec(rec_spec().prop_map(|r| CockpitItem::Handler(NodeSpec::Rec(r))), 0..2)).prop_map(|(head, items)| CockpitSpec { head, items })
}
fn small_tele(g: G) -> impl Strategy<Value = TeleSpec> {
    (head(g), some_in_ten(1, 1u8..20), vec(rec_spec().prop_map(|r| TeleItem::Handler(NodeSpec::Rec(r))), 0..2)).prop_map(|(head, cap, items)| TeleSpec { head, cap, items })
}
fn small_mount(g: G) -> impl Strategy<Value = MountSpec> {
    (some_in_ten(7, comp_name()), some_in_ten(g.limits, dur()), vec(small_tele(g).prop_map(|t| MountItem::Proc(ProcSpec::Tele(t))), 0..2))
        .prop_map(|(name, limit, items)| MountSpec { name, limit, items, attached: false, setters: false })
}
pub fn panel(g: G, depth: u32) -> BoxedStrategy<PanelSpec> {
    let inst = inst_node(g).prop_map(PanelItem::Inst);
    let item = if depth == 0 {
        prop_oneof![8 => inst, 1 => rec_spec().prop_map(|r| PanelItem::Handler(NodeSpec::Rec(r))), 1 => snap_spec().prop_map(PanelItem::Snap)].boxed()
    } else {
        prop_oneof![
            8 => inst,
            3 => node(g, depth - 1).prop_map(PanelItem::Handler),
            1 => snap_spec().prop_map(PanelItem::Snap),
            4 => panel(g, depth - 1).prop_map(PanelItem::Panel),
        ]
        .boxed()
    };
    let leaf = prop_oneof![
        2 => rec_spec().prop_map(|r| PanelItem::Handler(NodeSpec::Rec(r))),
        1 => snap_spec().prop_map(PanelItem::Snap),
        2 => small_panel(g).prop_map(PanelItem::Panel),
    ];
    (head(g), filter(), crowd(vec(item, 0..6), leaf)).prop_map(|(head, filter, items)| PanelSpec { head, filter, items }).boxed()
}
pub fn panel_edit(g: G) -> impl Strategy<Value = PanelEdit> {
    let limit = match g.limits {
        0 => comp_name().prop_map(PanelEdit::Name).boxed(),
        _ => dur().prop_map(PanelEdit::Limit).boxed(),
    };
    prop_oneof![
        4 => comp_name().prop_map(PanelEdit::Name),
        1 => "[a-z ]{0,5}".prop_map(PanelEdit::Title),
        1 => "[a-z ]{0,5}".prop_map(PanelEdit::Desc),
        1 => limit,
        1 => any::<bool>().prop_map(PanelEdit::Show),
        1 => (inst_node(g).prop_map(PanelItem::Inst), any::<bool>()).prop_map(|(i, f)| PanelEdit::Add(i, f)),
        1 => (small_panel(g).prop_map(PanelItem::Panel), any::<bool>()).prop_map(|(i, f)| PanelEdit::Add(i, f)),
    ]
}
pub fn cockpit(g: G, depth: u32) -> BoxedStrategy<CockpitSpec> {
    let item = if depth == 0 {
        prop_oneof![2 => panel(g, 0).prop_map(CockpitItem::Panel), 1 => rec_spec().prop_map(|r| CockpitItem::Handler(NodeSpec::Rec(r)))].boxed()
    } else {
        prop_oneof![
            6 => panel(g, depth - 1).prop_map(CockpitItem::Panel),
            2 => node(g, depth - 1).prop_map(CockpitItem::Handler),
            1 => snap_spec().prop_map(CockpitItem::Snap),
            1 => comp_name().prop_map(CockpitItem::RemovePanel),
            1 => (any::<u8>(), panel_edit(g)).prop_map(|(n, e)| CockpitItem::Edit(n, e)),
        ]
        .boxed()
    };
    let leaf = prop_oneof![
        3 => small_panel(g).prop_map(CockpitItem::Panel),
        2 => rec_spec().prop_map(|r| CockpitItem::Handler(NodeSpec::Rec(r))),
        1 => snap_spec().prop_map(CockpitItem::Snap),
    ];
    (head(g), crowd(vec(item, 0..4), leaf)).prop_map(|(head, items)| CockpitSpec { head, items }).boxed()
}
pub fn tele(g: G, depth: u32) -> BoxedStrategy<TeleSpec> {
    let item = prop_oneof![
        5 => cockpit(g, depth).prop_map(TeleItem::Cockpit),
        2 => node(g, depth.min(1)).prop_map(TeleItem::Handler),
        1 => snap_spec().prop_map(TeleItem::Snap),
    ];
    let leaf = prop_oneof![
        3 => small_cockpit(g).prop_map(TeleItem::Cockpit),
        2 => rec_spec().prop_map(|r| TeleItem::Handler(NodeSpec::Rec(r))),
        1 => snap_spec().prop_map(TeleItem::Snap),
    ];
    (head(g), some_in_ten(1, 1u8..20), crowd(vec(item, 0..4), leaf)).prop_map(|(head, cap, items)| TeleSpec { head, cap, items }).boxed()
}
fn claim() -> impl Strategy<Value = u32> {
    prop_oneof![5 => 0u32..4, 1 => 0u32..256, 1 => (0u32..24, 0u32..3).prop_map(|(s, d)| (1 << s) - 1 + d)]
}
pub fn proc_spec(g: G, depth: u32) -> BoxedStrategy<ProcSpec> {
    let t = tele(g, 2).prop_map(ProcSpec::Tele);
    let spy = (name(), vec((claim(), prop_oneof![2 => Just(0u32), 2 => 0u32..3, 1 => claim()], claim(), claim()), 0..4)).prop_map(|(name, outcomes)| ProcSpec::Spy(SpySpec { name, outcomes }));
    match (g.spies, depth) {
        (false, 0) => t.boxed(),
        (true, 0) => prop_oneof![2 => t, 1 => spy].boxed(),
        (false, _) => prop_oneof![2 => t, 1 => mount(g, depth - 1).prop_map(ProcSpec::Mount)].boxed(),
        (true, _) => prop_oneof![3 => t, 3 => mount(g, depth - 1).prop_map(ProcSpec::Mount), 2 => spy].boxed(),
    }
}
pub fn mount(g: G, depth: u32) -> BoxedStrategy<MountSpec> {
    (
        some_in_ten(7, comp_name()),
        some_in_ten(g.limits, dur()),
        crowd(
            vec(prop_oneof![5 => proc_spec(g, depth).prop_map(MountItem::Proc), 1 => snap_spec().prop_map(MountItem::Snap)], 0..4),
            prop_oneof![
                4 => small_tele(g).prop_map(|t| MountItem::Proc(ProcSpec::Tele(t))),
                1 => small_mount(g).prop_map(|m| MountItem::Proc(ProcSpec::Mount(m))),
                1 => snap_spec().prop_map(MountItem::Snap),
            ],
        ),
        if g.attached { any::<bool>().boxed() } else { Just(false).boxed() },
        any::<bool>(),
    )
        .prop_map(|(name, limit, items, attached, setters)| MountSpec { name, limit, items, attached, setters })
        .boxed()
}

// ------------------------------------------------------------ the model

pub type Upd = (usize, usize);
fn plus(a: Upd, b: Upd) -> Upd {
    (a.0 + b.0, a.1 + b.1)
}

pub struct RecLog {
    pub log: Log<u8>,
    pub expected: Vec<(u8, Kind, u64, i128)>,
    checked: usize,
}
pub struct SpyLog {
    pub calls: Arc<Mutex<Vec<(usize, ProcessingStrategy)>>>,
    pub expected: Vec<(usize, Strat)>,
    pub spec: SpySpec,
}

/// What the parts of the model share.
#[derive(Default)]
pub struct Env {
    pub now: u64,
    pub recs: Vec<RecLog>,
    pub spies: Vec<SpyLog>,
    pub teles: Vec<MTele>,
    pub txs: Vec<(TelemetryTransmitter<u8>, usize)>,
    pub handles: Vec<(AttachedMount, usize)>,
    pub pending: Vec<Vec<Pending>>,
    pub drivers: Vec<MDriver>,
    // what happened
    pub took: usize,
    pub refused: usize,
    pub hidden: usize,
    pub flags: usize,
    pub dropped: usize,
    pub ignored_names: usize,
    pub removed: usize,
    pub absent: usize,
    pub structural: usize,
    pub levels: usize,
    pub partial: usize,
}

pub struct MHead {
    pub head: Head,
    last: u64,
}
impl MHead {
    fn new(head: &Head, now: u64) -> MHead {
        MHead { head: head.clone(), last: now }
    }
    fn put(&self, into: &mut Level, d: bool, env: &mut Env, values: impl FnOnce(&mut Level, &mut Env)) {
        let mut level = Level::default();
        let named = self.head.name.is_some();
        let l = if named { &mut level } else { &mut *into };
        if d {
            l.describe("_title", &self.head.title);
            l.describe("_description", &self.head.desc);
        }
        let mut inactive = false;
        if let Some(limit) = self.head.limit {
            inactive = (env.now - self.last) as u128 > limit.ns();
            if self.head.show != Some(false) {
                env.flags += 1;
                l.push("_inactive", Exp::Bool(inactive));
                l.push("_active", Exp::Bool(!inactive));
            }
        }
        if inactive {
            env.hidden += 1;
        } else {
            values(l, env);
        }
        if named {
            env.levels += 1;
            into.push(self.head.name.clone().unwrap(), Exp::Level(level));
        }
    }
}

pub struct MInst {
    pub node: InstNode,
    pub model: Model,
}
impl MInst {
    fn handle(&mut self, l: u8, k: Kind, env: &mut Env) -> Upd {
        let gauge = matches!(self.node.spec.kind, IKind::Gauge { .. });
        let k = match &self.node.mode {
            Mode::Bare => Some(k),
            Mode::Deltas(f, _) if gauge => Some(k).filter(|k| f.accepts(l) && k.is_delta()),
            Mode::IncDec(i, _, _) if gauge && i.accepts(l) => Some(Kind::Value(Val::Chg(1))),
            Mode::IncDec(_, d, _) if gauge => Some(Kind::Value(Val::Chg(-1))).filter(|_| d.accepts(l)),
            Mode::Filter(f, _) | Mode::Deltas(f, _) | Mode::IncDec(f, _, _) => Some(k).filter(|_| f.accepts(l)),
        };
        let Some(mut k) = k else {
            env.refused += 1;
            return (0, 0);
        };
        env.took += 1;
        if let Some(m) = &self.node.modify {
            k = m.apply(l, k);
        }
        self.model.update(k, env.now)
    }
}

pub enum MNode {
    Inst(MInst),
    Rec(RecSpec, usize),
    Panel(MPanel),
    Cockpit(MCockpit),
}
impl MNode {
    pub fn handle(&mut self, l: u8, k: Kind, ts: i128, env: &mut Env) -> Upd {
        match self {
            MNode::Inst(i) => i.handle(l, k, env),
            MNode::Rec(s, i) => {
                let now = env.now;
                env.recs[*i].expected.push((l, k, now, ts));
                (s.reports as usize, s.reports as usize)
            }
            MNode::Panel(p) => p.handle(l, k, ts, env),
            MNode::Cockpit(c) => c.handle(l, k, ts, env),
        }
    }
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        match self {
            MNode::Inst(i) => i.model.expect(into, d, env.now),
            MNode::Rec(s, i) => into.push(s.name.clone(), Exp::Int(env.recs[*i].expected.len() as i128)),
            MNode::Panel(p) => p.expect(into, d, env),
            MNode::Cockpit(c) => c.expect(into, d, env),
        }
    }
}

pub fn expect_snap(s: &SnapSpec, into: &mut Level, d: bool) {
    let shows = |f: &Fixed, l: &mut Level| {
        l.push("fixed", Exp::Bool(d));
        for (n, i) in &f.0 {
            l.push(n.clone(), Exp::Item(i.kind()));
        }
    };
    match s {
        SnapSpec::Const { name, title, desc, item, .. } => {
            if d {
                into.describe(&format!("_title_{}", name), title);
                into.describe(&format!("_description_{}", name), desc);
            }
            into.push(name.clone(), Exp::Item(item.kind()));
        }
        SnapSpec::Poll { name, title, desc, group, shows: f, .. } => {
            if d {
                into.describe(&format!("_title_{}", name), title);
                into.describe(&format!("_description_{}", name), desc);
            }
            if *group == Some(true) {
                let mut l = Level::default();
                shows(f, &mut l);
                into.push(name.clone(), Exp::Level(l));
            } else {
                shows(f, into);
            }
        }
        SnapSpec::Plain(f) => shows(f, into),
    }
}

pub struct MPanel {
    pub head: MHead,
    pub filter: FilterSpec,
    pub slots: [Option<MInst>; 4],
    pub panels: Vec<MPanel>,
    pub snaps: Vec<SnapSpec>,
    pub handlers: Vec<MNode>,
}
impl MPanel {
    pub fn handle(&mut self, l: u8, k: Kind, ts: i128, env: &mut Env) -> Upd {
        if !self.filter.accepts(l) {
            env.refused += 1;
            return (0, 0);
        }
        self.head.last = env.now;
        let mut n = (0, 0);
        for s in self.slots.iter_mut().flatten() {
            n = plus(n, s.handle(l, k, env));
        }
        for p in self.panels.iter_mut() {
            n = plus(n, p.handle(l, k, ts, env));
        }
        for h in self.handlers.iter_mut() {
            n = plus(n, h.handle(l, k, ts, env));
        }
        n
    }
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        let MPanel { head, slots, panels, snaps, handlers, .. } = self;
        head.put(into, d, env, |l, env| {
            slots.iter_mut().flatten().for_each(|s| s.model.expect(l, d, env.now));
            panels.iter_mut().for_each(|p| p.expect(l, d, env));
            snaps.iter().for_each(|s| expect_snap(s, l, d));
            handlers.iter_mut().for_each(|h| h.expect(l, d, env));
        })
    }
}

pub struct MCockpit {
    pub head: MHead,
    pub panels: Vec<MPanel>,
    pub handlers: Vec<MNode>,
    pub snaps: Vec<SnapSpec>,
}
impl MCockpit {
    fn add_panel(&mut self, p: MPanel, env: &mut Env) {
        let n = &p.head.head.name;
        if n.is_some() && self.panels.iter().any(|q| q.head.head.name == *n) {
            env.ignored_names += 1;
            return;
        }
        self.panels.push(p);
    }
    fn remove_panel(&mut self, n: &str, env: &mut Env) {
        let before = self.panels.len();
        self.panels.retain(|p| p.head.head.name.as_deref() != Some(n));
        if before > self.panels.len() {
            env.removed += 1;
        } else {
            env.absent += 1;
        }
    }
    pub fn handle(&mut self, l: u8, k: Kind, ts: i128, env: &mut Env) -> Upd {
        self.head.last = env.now;
        let mut n = (0, 0);
        for h in self.handlers.iter_mut() {
            n = plus(n, h.handle(l, k, ts, env));
        }
        for p in self.panels.iter_mut() {
            n = plus(n, p.handle(l, k, ts, env));
        }
        n
    }
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        let MCockpit { head, panels, handlers, snaps } = self;
        head.put(into, d, env, |l, env| {
            panels.iter_mut().for_each(|p| p.expect(l, d, env));
            handlers.iter_mut().for_each(|h| h.expect(l, d, env));
            snaps.iter().for_each(|s| expect_snap(s, l, d));
        })
    }
}

pub enum MMsg {
    Obs(u8, Kind, i128),
    AddCockpit(MCockpit),
    RemoveCockpit(String),
    AddPanel(String, MPanel),
    RemovePanel(String, String),
    AddHandler(MNode),
}

pub struct MTele {
    pub head: MHead,
    pub cockpits: Vec<MCockpit>,
    pub handlers: Vec<MNode>,
    pub snaps: Vec<SnapSpec>,
    pub queue: VecDeque<MMsg>,
    cap: Option<usize>,
}
impl MTele {
    fn add_cockpit(&mut self, c: MCockpit, env: &mut Env) {
        let n = &c.head.head.name;
        if n.is_some() && self.cockpits.iter().any(|q| q.head.head.name == *n) {
            env.ignored_names += 1;
            return;
        }
        self.cockpits.push(c);
    }
    pub fn cap(&self) -> Option<usize> {
        self.cap
    }
    fn room(&self) -> bool {
        self.cap.is_none_or(|c| self.queue.len() < c)
    }
    pub fn process(&mut self, max: usize, strat: Strat, env: &mut Env) -> Out {
        let mut o = Out::default();
        while o.processed + o.dropped < max {
            let Some(m) = self.queue.pop_front() else { break };
            match m {
                MMsg::Obs(l, k, ts) => {
                    if strat.keeps(env.now as i128 - ts, k.is_delta()) {
                        for c in self.cockpits.iter_mut() {
                            o.updated = plus(o.updated, c.handle(l, k, ts, env));
                        }
                        for h in self.handlers.iter_mut() {
                            o.updated = plus(o.updated, h.handle(l, k, ts, env));
                        }
                        o.processed += 1;
                    } else {
                        env.dropped += 1;
                        o.dropped += 1;
                    }
                    continue;
                }
                MMsg::AddCockpit(c) => self.add_cockpit(c, env),
                MMsg::RemoveCockpit(n) => {
                    let before = self.cockpits.len();
                    self.cockpits.retain(|c| c.head.head.name.as_ref() != Some(&n));
                    if before > self.cockpits.len() {
                        env.removed += 1;
                    } else {
                        env.absent += 1;
                    }
                }
                MMsg::AddPanel(c, p) => match self.cockpits.iter_mut().find(|x| x.head.head.name.as_ref() == Some(&c)) {
                    Some(c) => c.add_panel(p, env),
                    None => env.absent += 1,
                },
                MMsg::RemovePanel(c, p) => match self.cockpits.iter_mut().find(|x| x.head.head.name.as_ref() == Some(&c)) {
                    Some(c) => c.remove_panel(&p, env),
                    None => env.absent += 1,
                },
                MMsg::AddHandler(h) => self.handlers.push(h),
            }
            env.structural += 1;
            o.processed += 1;
        }
        o.enqueued = self.queue.len();
        if o.enqueued > 0 {
            env.partial += 1;
        }
        if o.processed + o.dropped > 0 {
            self.head.last = env.now;
        }
        o
    }
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        let MTele { head, cockpits, handlers, snaps, .. } = self;
        head.put(into, d, env, |l, env| {
            cockpits.iter_mut().for_each(|c| c.expect(l, d, env));
            handlers.iter_mut().for_each(|h| h.expect(l, d, env));
            snaps.iter().for_each(|s| expect_snap(s, l, d));
        })
    }
}

#[derive(Debug, Default, Clone, Copy)]
pub struct Out {
    pub processed: usize,
    pub dropped: usize,
    pub updated: Upd,
    pub enqueued: usize,
}
impl Out {
    pub fn add(&mut self, o: Out) {
        self.processed += o.processed;
        self.dropped += o.dropped;
        self.updated = plus(self.updated, o.updated);
        self.enqueued += o.enqueued;
    }
    pub fn check(&self, what: &str, o: &ProcessingOutcome) -> Res {
        ensure!(
            o.processed == self.processed
                && o.dropped == self.dropped
                && o.observations_enqueued == self.enqueued
                && o.instruments_updated >= self.updated.0
                && o.instruments_updated <= self.updated.1,
            "{}: outcome processed {}, dropped {}, updated {}, enqueued {}, expected {:?}",
            what,
            o.processed,
            o.dropped,
            o.instruments_updated,
            o.observations_enqueued,
            self
        );
        Ok(())
    }
}

pub enum MChild {
    Tele(usize),
    Mount(MMount),
    Spy(usize),
    Driver(usize),
}
/// A driver with what is needed to watch it.
pub struct MDriver {
    pub cfg: DCfg,
    pub handle: Option<TelemetryDriver>,
    /// runs it has done
    pub runs: Arc<AtomicU64>,
    pub children: Vec<MChild>,
    pub snaps: Vec<SnapSpec>,
    pub paused: bool,
    pub strat: Strat,
}
impl DCfg {
    pub fn strat(&self) -> Strat {
        self.strat.unwrap_or(Strat::Older { max_age_ns: 30 * SEC, drop_deltas: false })
    }
    pub fn metrics(&self) -> bool {
        self.metrics.unwrap_or(true)
    }
    pub fn build(&self) -> TelemetryDriver {
        let s = self.strat().get();
        match self.how % 3 {
            0 => TelemetryDriver::new(self.name.clone(), self.title.clone(), self.desc.clone(), s, self.metrics()),
            1 => {
                let mut b = DriverBuilder::default();
                if let Some(n) = &self.name {
                    b = b.set_name(n.clone());
                }
                if let Some(n) = &self.title {
                    b = b.set_title(n.clone());
                }
                if let Some(n) = &self.desc {
                    b = b.set_description(n.clone());
                }
                if self.strat.is_some() {
                    b = b.set_processing_strategy(s);
                }
                if let Some(m) = self.metrics {
                    b = b.set_driver_metrics(m);
                }
                b.build()
            }
            _ => {
                let plain = self.name.is_none() && self.title.is_none() && self.desc.is_none() && self.strat.is_none() && self.metrics.is_none();
                if plain {
                    return TelemetryDriver::default();
                }
                let mut b = match &self.name {
                    Some(n) => DriverBuilder::new(n.clone()),
                    None => DriverBuilder::default(),
                };
                b.title = self.title.clone();
                b.description = self.desc.clone();
                if self.strat.is_some() {
                    b.processing_strategy = s;
                }
                b.with_driver_metrics = self.metrics();
                b.build()
            }
        }
    }
}
/// Counts the runs of a driver and shows nothing.
pub struct Probe(pub Arc<AtomicU64>);
impl ProcessesTelemetryMessages for Probe {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.0.fetch_add(1, SeqCst);
        ProcessingOutcome::default()
    }
}
impl PutsSnapshot for Probe {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl MDriver {
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        let mut l = Level::default();
        if d {
            l.describe("_title", &self.cfg.title);
            l.describe("_description", &self.cfg.desc);
        }
        self.children.iter_mut().for_each(|c| c.expect(&mut l, d, env));
        self.snaps.iter().for_each(|s| expect_snap(s, &mut l, d));
        if self.cfg.metrics() {
            l.push("_metrix", Exp::Any);
        }
        match &self.cfg.name {
            Some(n) => {
                env.levels += 1;
                into.push(n.clone(), Exp::Level(l))
            }
            None => into.0.extend(l.0),
        }
    }
    /// what one of its runs, or several, come to
    pub fn run(&mut self, env: &mut Env) {
        if !self.paused {
            for _ in 0..2 {
                let strat = self.strat;
                self.children.iter_mut().for_each(|c| {
                    c.process(usize::MAX, strat, env);
                });
            }
        }
    }
}
pub fn with_driver<R>(i: usize, env: &mut Env, f: impl FnOnce(&mut MDriver, &mut Env) -> R) -> R {
    let blank = MDriver {
        cfg: DCfg { name: None, title: None, desc: None, strat: None, metrics: None, how: 0 },
        handle: None,
        runs: Default::default(),
        children: vec![],
        snaps: vec![],
        paused: false,
        strat: Strat::All,
    };
    let mut d = std::mem::replace(&mut env.drivers[i], blank);
    let r = f(&mut d, env);
    env.drivers[i] = d;
    r
}
pub fn build_driver(s: &DriverSpec, env: &mut Env) -> (TelemetryDriver, usize) {
    let mut r = s.cfg.build();
    let runs = Arc::new(AtomicU64::new(0));
    r.add_processor(Probe(runs.clone()));
    let mut m = MDriver { cfg: s.cfg.clone(), handle: Some(r.clone()), runs, children: vec![], snaps: vec![], paused: false, strat: s.cfg.strat() };
    for item in &s.items {
        match item {
            MountItem::Proc(p) => {
                let c = put_proc(&mut r, p, env);
                m.children.push(c);
            }
            MountItem::Snap(x) => {
                r.add_snapshooter(DynSnap(build_snap(x)));
                m.snaps.push(x.clone());
            }
        }
    }
    env.drivers.push(m);
    (r, env.drivers.len() - 1)
}
pub enum Pending {
    Child(MChild),
    Snap(SnapSpec),
}
pub struct MMount {
    pub head: MHead,
    pub children: Vec<MChild>,
    pub snaps: Vec<SnapSpec>,
    pub pending: Option<usize>,
}
impl MChild {
    pub fn process(&mut self, max: usize, strat: Strat, env: &mut Env) -> Out {
        match self {
            MChild::Tele(i) => with_tele(*i, env, |t, env| t.process(max, strat, env)),
            MChild::Spy(i) => {
                let s = &mut env.spies[*i];
                s.expected.push((max, strat));
                let (p, d, u, e) = spy_outcome(&s.spec, s.expected.len() - 1);
                Out { processed: p, dropped: d, updated: (u, u), enqueued: e }
            }
            // has its own thread
            MChild::Driver(_) => Out::default(),
            MChild::Mount(m) => {
                if let Some(p) = m.pending {
                    for p in std::mem::take(&mut env.pending[p]) {
                        match p {
                            Pending::Child(c) => m.children.push(c),
                            Pending::Snap(s) => m.snaps.push(s),
                        }
                    }
                }
                let mut o = Out::default();
                for c in m.children.iter_mut() {
                    o.add(c.process(max, strat, env));
                }
                if o.processed + o.dropped > 0 {
                    m.head.last = env.now;
                }
                o
            }
        }
    }
    pub fn expect(&mut self, into: &mut Level, d: bool, env: &mut Env) {
        match self {
            MChild::Tele(i) => with_tele(*i, env, |t, env| t.expect(into, d, env)),
            MChild::Driver(i) => with_driver(*i, env, |t, env| t.expect(into, d, env)),
            MChild::Spy(i) => into.push(env.spies[*i].spec.name.clone(), Exp::Int(env.spies[*i].expected.len() as i128)),
            MChild::Mount(m) => {
                let MMount { head, children, snaps, .. } = m;
                head.put(into, d, env, |l, env| {
                    children.iter_mut().for_each(|c| c.expect(l, d, env));
                    snaps.iter().for_each(|s| expect_snap(s, l, d));
                })
            }
        }
    }
}
pub fn with_tele<R>(i: usize, env: &mut Env, f: impl FnOnce(&mut MTele, &mut Env) -> R) -> R {
    let blank = MTele {
        head: MHead { head: no_head(), last: 0 },
        cockpits: vec![],
        handlers: vec![],
        snaps: vec![],
        queue: VecDeque::new(),
        cap: None,
    };
    let mut t = std::mem::replace(&mut env.teles[i], blank);
    let r = f(&mut t, env);
    env.teles[i] = t;
    r
}
fn no_head() -> Head {
    Head { name: None, title: None, desc: None, limit: None, show: None, setters: false, twice: false }
}
fn spy_outcome(s: &SpySpec, call: usize) -> (usize, usize, usize, usize) {
    if s.outcomes.is_empty() {
        return (0, 0, 0, 0);
    }
    let (p, d, u, e) = s.outcomes[call % s.outcomes.len()];
    (p as usize, d as usize, u as usize, e as usize)
}

// ------------------------------------------------------------ construction

trait Sink: Sized {
    fn put<H: HandlesObservations<Label = u8>>(self, h: H, fluent: bool) -> Self;
    fn put_instrument<I: Instrument>(self, i: I, fluent: bool) -> Self {
        self.put(InstrumentAdapter::new(i), fluent)
    }
}
impl Sink for Panel<u8> {
    fn put<H: HandlesObservations<Label = u8>>(mut self, h: H, fluent: bool) -> Self {
        if fluent {
            return self.handler(h);
        }
        self.add_handler(h);
        self
    }
    fn put_instrument<I: Instrument>(mut self, i: I, fluent: bool) -> Self {
        if fluent {
            return self.instrument(i);
        }
        self.add_instrument(i);
        self
    }
}
impl Sink for Cockpit<u8> {
    fn put<H: HandlesObservations<Label = u8>>(mut self, h: H, fluent: bool) -> Self {
        if fluent {
            return self.handler(h);
        }
        self.add_handler(h);
        self
    }
}
impl Sink for TelemetryProcessor<u8> {
    fn put<H: HandlesObservations<Label = u8>>(mut self, h: H, fluent: bool) -> Self {
        if fluent {
            return self.handler(h);
        }
        self.add_handler(h);
        self
    }
}
impl Sink for &TelemetryTransmitter<u8> {
    fn put<H: HandlesObservations<Label = u8>>(self, h: H, _: bool) -> Self {
        self.add_handler(h)
    }
}
/// Only looks at observations itself.
pub struct Alone(pub Option<Box<dyn HandlesObservations<Label = u8>>>);
impl Sink for Alone {
    fn put<H: HandlesObservations<Label = u8>>(self, h: H, _: bool) -> Self {
        Alone(Some(Box::new(h)))
    }
}

fn stat<I: Instrument>(x: I, f: &FilterSpec) -> InstrumentAdapter<u8, I> {
    match f {
        FilterSpec::One(l, _) => InstrumentAdapter::for_label(*l, x),
        FilterSpec::Many(v) => InstrumentAdapter::for_labels(v.clone(), x),
        FilterSpec::Pred(m, _) => {
            let m = *m;
            InstrumentAdapter::by_predicate(move |l| bit(m, *l), x)
        }
        FilterSpec::All(h) if h % 2 == 0 => InstrumentAdapter::deaf(x).accept_all_labels(),
        FilterSpec::All(_) => InstrumentAdapter::new(x),
        FilterSpec::Nothing(h) if h % 2 == 0 => InstrumentAdapter::new(x).accept_no_labels(),
        FilterSpec::Nothing(_) => InstrumentAdapter::deaf(x),
        f => InstrumentAdapter::accept(f.real(), x),
    }
}
macro_rules! inherent {
    ($x:expr, $f:expr) => {
        match $f {
            FilterSpec::One(l, _) => $x.for_label(*l),
            FilterSpec::Many(v) => $x.for_labels(v.clone()),
            FilterSpec::Pred(m, _) => {
                let m = *m;
                $x.for_labels_by_predicate(move |l: &u8| bit(m, *l))
            }
            FilterSpec::All(_) => $x.for_all_labels(),
            FilterSpec::Nothing(_) => $x.adapter(),
            f => $x.accept(f.real()),
        }
    };
}
macro_rules! adapter {
    ($x:expr, $n:expr) => {{
        let a = match &$n.mode {
            Mode::Bare => InstrumentAdapter::new($x),
            Mode::Filter(f, how) | Mode::Deltas(f, how) | Mode::IncDec(f, _, how) => match how % 3 {
                0 => InstrumentAdapter::accept(f.real(), $x),
                1 => stat($x, f),
                _ => inherent!($x, f),
            },
        };
        // what is set later replaces what was set before, and nothing else
        let (f, how) = match &$n.mode {
            Mode::Bare => (None, 0),
            Mode::Filter(f, how) | Mode::Deltas(f, how) | Mode::IncDec(f, _, how) => (Some(f), how / 3),
        };
        let a = match &$n.modify {
            Some(m) if how % 3 == 1 => a.modify_with(|_, u| match u {
                Update::Observation(t) => Update::Observations(7, t),
                Update::Observations(_, t) | Update::ObservationWithValue(_, t) => Update::Observation(t),
            }).modify_with(m.fun()),
            Some(m) => a.modify_with(m.fun()),
            None => a,
        };
        match f {
            Some(FilterSpec::All(_)) if how & 4 == 4 => a.accept_no_labels().accept_all_labels(),
            Some(FilterSpec::All(_)) if how & 8 == 8 => a.accept_all_labels(),
            Some(FilterSpec::Nothing(_)) if how & 4 == 4 => a.accept_all_labels().accept_no_labels(),
            Some(FilterSpec::Nothing(_)) if how & 8 == 8 => a.accept_no_labels(),
            _ => a,
        }
    }};
}
fn gauge_adapter(g: Gauge, mode: &Mode) -> GaugeAdapter<u8> {
    match mode {
        Mode::Bare => GaugeAdapter::new(g),
        Mode::Filter(f, how) => match how % 2 {
            0 => GaugeAdapter::accept(f.real(), g),
            _ => inherent!(g, f),
        },
        Mode::Deltas(f, how) => match (how % 3, f) {
            (0, _) => GaugeAdapter::deltas_only(f.real(), g),
            (1, FilterSpec::One(l, _)) => GaugeAdapter::for_label_deltas_only(*l, g),
            (1, FilterSpec::Many(v)) => GaugeAdapter::for_labels_deltas_only(v.clone(), g),
            (_, FilterSpec::One(l, _)) => g.for_label_deltas_only(*l),
            (_, FilterSpec::Many(v)) => g.for_labels_deltas_only(v.clone()),
            _ => g.deltas_only(f.real()),
        },
        Mode::IncDec(i, d, how) => match (how % 2, i, d) {
            (0, FilterSpec::Many(a), FilterSpec::Many(b)) => GaugeAdapter::inc_dec_on_many(a.clone(), b.clone(), g),
            (0, _, _) => GaugeAdapter::inc_dec_on(i.real(), d.real(), g),
            (_, FilterSpec::Many(a), FilterSpec::Many(b)) => g.inc_dec_on_many(a.clone(), b.clone()),
            _ => g.inc_dec_on(i.real(), d.real()),
        },
    }
}

/// What the model has to know: modifiers do not exist for gauge adapters.
fn norm(n: &InstNode) -> InstNode {
    let mut n = n.clone();
    if matches!(n.spec.kind, IKind::Gauge { .. }) {
        let special = matches!(n.mode, Mode::Deltas(..) | Mode::IncDec(..));
        if n.typed || special {
            n.modify = None;
        }
    }
    n
}

fn put_inst<S: Sink>(s: S, n: &InstNode, env: &mut Env) -> (S, MInst) {
    let n = norm(n);
    let (real, model) = n.spec.build();
    let fluent = !n.spec.setters;
    let s = match real {
        Real::Gauge(g) if n.modify.is_none() && (n.typed || n.mode != Mode::Bare) => s.put(gauge_adapter(g, &n.mode), fluent),
        Real::Gauge(g) => {
            let f = match &n.mode {
                Mode::Filter(f, _) => f.clone(),
                _ => FilterSpec::All(0),
            };
            match &n.modify {
                None if n.mode == Mode::Bare => s.put_instrument(g, fluent),
                None => s.put(stat(g, &f), fluent),
                Some(m) => s.put(stat(g, &f).modify_with(m.fun()), fluent),
            }
        }
        Real::Counter(x) => s.put(adapter!(x, n), fluent),
        Real::Meter(x) => s.put(adapter!(x, n), fluent),
        Real::Histogram(x) => s.put(adapter!(x, n), fluent),
        Real::ValueMeter(x) if n.mode == Mode::Bare && n.modify.is_none() => s.put_instrument(x, fluent),
        Real::ValueMeter(x) => s.put(adapter!(x, n), fluent),
        Real::Display(x) if n.mode == Mode::Bare && n.modify.is_none() => s.put_instrument(x, fluent),
        Real::Display(x) => s.put(adapter!(x, n), fluent),
        Real::LastOcc(x) => s.put(adapter!(x, n), fluent),
        Real::Staircase(x) => s.put(adapter!(x, n), fluent),
        Real::Occ(x) => s.put(adapter!(x, n), fluent),
        Real::NonOcc(x) => s.put(adapter!(x, n), fluent),
        Real::Flag(x) => s.put(adapter!(x, n), fluent),
    };
    let _ = env;
    (s, MInst { node: n, model })
}

pub fn put_node<S: Sink>(s: S, n: &NodeSpec, fluent: bool, env: &mut Env) -> (S, MNode) {
    match n {
        NodeSpec::Inst(n) => {
            let (s, m) = put_inst(s, &InstNode { typed: false, ..n.clone() }, env);
            (s, MNode::Inst(m))
        }
        NodeSpec::Rec(r) => {
            let (rec, log) = Recorder::new(&r.name, r.reports as usize);
            env.recs.push(RecLog { log, expected: vec![], checked: 0 });
            (s.put(rec, fluent), MNode::Rec(r.clone(), env.recs.len() - 1))
        }
        NodeSpec::Panel(p) => {
            let (p, m) = build_panel(p, env);
            (s.put(p, fluent), MNode::Panel(m))
        }
        NodeSpec::Cockpit(c) => {
            let (c, m) = build_cockpit(c, env);
            (s.put(c, fluent), MNode::Cockpit(m))
        }
    }
}
/// A component on its own.
pub fn build_node(n: &NodeSpec, env: &mut Env) -> (Box<dyn HandlesObservations<Label = u8>>, MNode) {
    let (s, m) = put_node(Alone(None), n, false, env);
    (s.0.unwrap(), m)
}

macro_rules! put_snap {
    ($s:expr, $x:ident, $fluent:expr) => {{
        macro_rules! go {
            ($v:expr) => {
                if $fluent {
                    $x = $x.snapshooter($v);
                } else {
                    $x.add_snapshooter($v);
                }
            };
        }
        match $s {
            SnapSpec::Plain(f) => go!(f.clone()),
            s => match real_snap(s) {
                RealSnap::Const(c) => go!(c),
                RealSnap::Poll(p) => go!(p),
            },
        }
    }};
}
pub enum RealSnap {
    Const(ConstantValue),
    Poll(PollingInstrument<Fixed>),
}
impl PutsSnapshot for RealSnap {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        match self {
            RealSnap::Const(c) => c.put_snapshot(into, d),
            RealSnap::Poll(c) => c.put_snapshot(into, d),
        }
    }
}
fn real_snap(s: &SnapSpec) -> RealSnap {
    match s {
        SnapSpec::Const { name, title, desc, rename, item } => {
            let mut c = ConstantValue::new(if *rename { "x" } else { name.as_str() }, item.kind());
            if *rename {
                c.set_name(name.clone());
            }
            if let Some(t) = title {
                c.set_title(t.clone());
            }
            if let Some(t) = desc {
                c.set_description(t.clone());
            }
            RealSnap::Const(c)
        }
        SnapSpec::Poll { name, title, desc, rename, group, shows } => {
            let mut c = PollingInstrument::new_with_defaults(if *rename { "x" } else { name.as_str() }, shows.clone());
            if *rename {
                c.set_name(name.clone());
            }
            if let Some(t) = title {
                c.set_title(t.clone());
            }
            if let Some(t) = desc {
                c.set_description(t.clone());
            }
            if let Some(g) = group {
                c.set_create_group_with_name(*g);
            }
            RealSnap::Poll(c)
        }
        SnapSpec::Plain(_) => unreachable!(),
    }
}
/// Any snapshooter, boxed.
pub struct DynSnap(pub Box<dyn PutsSnapshot>);
impl PutsSnapshot for DynSnap {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.0.put_snapshot(into, d)
    }
}
pub fn build_snap(s: &SnapSpec) -> Box<dyn PutsSnapshot> {
    match s {
        SnapSpec::Plain(f) => Box::new(f.clone()),
        s => match real_snap(s) {
            RealSnap::Const(c) => Box::new(c),
            RealSnap::Poll(p) => Box::new(p),
        },
    }
}

macro_rules! preset {
    ($h:expr, $x:ident, $texts:tt, $fluent:tt) => {{
        if let Some(n) = &$h.name {
            $x.set_name(format!("{}-", n));
            $x.set_name(n.clone());
        }
        preset!(@texts $texts, $h, $x);
        if $h.limit.is_some() {
            preset!(@fluent $fluent, $x);
            $x.set_inactivity_limit(Duration::from_nanos(2));
            if $h.setters {
                $x.set_inactivity_limit(Duration::from_secs(u64::MAX));
            }
        }
        if let Some(b) = $h.show {
            $x = $x.show_activity_state(b);
            $x.set_show_activity_state(!b);
        }
    }};
    (@texts true, $h:expr, $x:ident) => {
        if $h.title.is_some() {
            $x.set_title("another");
        }
        if $h.desc.is_some() {
            $x.set_description("another");
        }
    };
    (@texts false, $h:expr, $x:ident) => {};
    (@fluent true, $x:ident) => {
        $x = $x.inactivity_limit(Duration::from_nanos(1))
    };
    (@fluent false, $x:ident) => {};
}

pub fn build_panel(s: &PanelSpec, env: &mut Env) -> (Panel<u8>, MPanel) {
    let h = &s.head;
    let mut p = match (&h.name, &s.filter, h.setters) {
        (Some(n), FilterSpec::All(0), false) => Panel::accept_all_named(n.clone()),
        (None, FilterSpec::All(0), _) => Panel::accept_all(),
        (Some(n), f, false) if n.len() % 2 == 0 => Panel::named(f.real(), n.clone()),
        (Some(n), f, false) => Panel::accept_named(f.real(), n.clone()),
        (None, f, false) => Panel::new(f.real()),
        (None, f, true) => Panel::accept(f.real()),
        (Some(n), f, true) => {
            let mut p = Panel::new(f.real());
            p.set_name(n.clone());
            p
        }
    };
    if h.twice {
        preset!(h, p, true, true);
    }
    if let Some(t) = &h.title {
        p.set_title(t.clone());
    }
    if let Some(t) = &h.desc {
        p.set_description(t.clone());
    }
    if let Some(d) = h.limit {
        if h.setters {
            p.set_inactivity_limit(d.get());
        } else {
            p = p.inactivity_limit(d.get());
        }
    }
    if let Some(b) = h.show {
        if h.setters {
            p.set_show_activity_state(b);
        } else {
            p = p.show_activity_state(b);
        }
    }
    let mut m = MPanel {
        head: MHead::new(h, vclock::now_ns()),
        filter: s.filter.clone(),
        slots: [None, None, None, None],
        panels: vec![],
        snaps: vec![],
        handlers: vec![],
    };
    for item in &s.items {
        p = fill_panel(p, &mut m, item, !h.setters, env);
    }
    (p, m)
}

pub fn fill_panel(mut p: Panel<u8>, m: &mut MPanel, item: &PanelItem, fluent: bool, env: &mut Env) -> Panel<u8> {
    macro_rules! slot {
        ($k:expr, $x:expr, $n:expr, $model:expr, $add:ident, $flu:ident) => {{
            if $n.mode == Mode::Bare && $n.modify.is_none() {
                if fluent {
                    p = p.$flu($x);
                } else {
                    p.$add($x);
                }
            } else {
                let a = adapter!($x, $n);
                if fluent {
                    p = p.$flu(a);
                } else {
                    p.$add(a);
                }
            }
            place(m, $k, MInst { node: $n, model: $model });
        }};
    }
    fn place(m: &mut MPanel, k: usize, i: MInst) {
        if m.slots[k].is_none() {
            m.slots[k] = Some(i);
        } else {
            m.handlers.push(MNode::Inst(i));
        }
    }
    match item {
        PanelItem::Inst(n) if n.typed => {
            let n = norm(n);
            let (real, model) = n.spec.build();
            match real {
                Real::Counter(x) => slot!(0, x, n, model, add_counter, counter),
                Real::Gauge(x) => {
                    if n.mode == Mode::Bare {
                        if fluent {
                            p = p.gauge(x);
                        } else {
                            p.add_gauge(x);
                        }
                    } else if fluent {
                        p = p.gauge(gauge_adapter(x, &n.mode));
                    } else {
                        p.add_gauge(gauge_adapter(x, &n.mode));
                    }
                    place(m, 1, MInst { node: n, model });
                }
                Real::Meter(x) => slot!(2, x, n, model, add_meter, meter),
                Real::Histogram(x) => slot!(3, x, n, model, add_histogram, histogram),
                _ => {
                    let (q, i) = put_inst(p, &n, env);
                    p = q;
                    m.handlers.push(MNode::Inst(i));
                }
            }
        }
        PanelItem::Inst(n) => {
            let (q, i) = put_inst(p, n, env);
            p = q;
            m.handlers.push(MNode::Inst(i));
        }
        PanelItem::Handler(n) => {
            let (q, i) = put_node(p, n, fluent, env);
            p = q;
            m.handlers.push(i);
        }
        PanelItem::Snap(s) => {
            put_snap!(s, p, fluent);
            m.snaps.push(s.clone());
        }
        PanelItem::Panel(c) => {
            let (c, mc) = build_panel(c, env);
            if fluent {
                p = p.panel(c);
            } else {
                p.add_panel(c);
            }
            m.panels.push(mc);
        }
    }
    p
}

pub fn build_cockpit(s: &CockpitSpec, env: &mut Env) -> (Cockpit<u8>, MCockpit) {
    let h = &s.head;
    let mut c = match (&h.name, h.setters) {
        (Some(n), false) => Cockpit::new(n.clone()),
        (Some(n), true) => {
            let mut c = Cockpit::default();
            c.set_name(n.clone());
            c
        }
        (None, false) => Cockpit::without_name(),
        (None, true) => Cockpit::default(),
    };
    if h.twice {
        preset!(h, c, true, false);
    }
    if let Some(t) = &h.title {
        c.set_title(t.clone());
    }
    if let Some(t) = &h.desc {
        c.set_description(t.clone());
    }
    if let Some(d) = h.limit {
        c.set_inactivity_limit(d.get());
    }
    if let Some(b) = h.show {
        if h.setters {
            c.set_show_activity_state(b);
        } else {
            c = c.show_activity_state(b);
        }
    }
    let mut m = MCockpit { head: MHead::new(h, vclock::now_ns()), panels: vec![], handlers: vec![], snaps: vec![] };
    for item in &s.items {
        c = fill_cockpit(c, &mut m, item, !h.setters, env);
    }
    (c, m)
}

pub fn fill_cockpit(mut c: Cockpit<u8>, m: &mut MCockpit, item: &CockpitItem, fluent: bool, env: &mut Env) -> Cockpit<u8> {
    match item {
        CockpitItem::Panel(p) => {
            let (p, mp) = build_panel(p, env);
            if fluent {
                c = c.panel(p);
            } else {
                c.add_panel(p);
            }
            m.add_panel(mp, env);
        }
        CockpitItem::Handler(n) => {
            let (d, i) = put_node(c, n, fluent, env);
            c = d;
            m.handlers.push(i);
        }
        CockpitItem::Snap(s) => {
            put_snap!(s, c, fluent);
            m.snaps.push(s.clone());
        }
        CockpitItem::RemovePanel(n) => {
            c.remove_panel(n);
            m.remove_panel(n, env);
        }
        CockpitItem::Edit(_, _) if m.panels.is_empty() => {}
        CockpitItem::Edit(n, e) => {
            let n = *n as usize % m.panels.len();
            let mp = &mut m.panels[n];
            let p = c.get_panels_mut().swap_remove(n);
            edit_panel(p, mp, e, env);
        }
    }
    c
}

pub fn edit_panel(p: &mut Panel<u8>, mp: &mut MPanel, e: &PanelEdit, env: &mut Env) {
    match e {
        PanelEdit::Name(x) => {
            p.set_name(x.clone());
            mp.head.head.name = Some(x.clone());
        }
        PanelEdit::Title(x) => {
            p.set_title(x.clone());
            mp.head.head.title = Some(x.clone());
        }
        PanelEdit::Desc(x) => {
            p.set_description(x.clone());
            mp.head.head.desc = Some(x.clone());
        }
        PanelEdit::Limit(x) => {
            p.set_inactivity_limit(x.get());
            mp.head.head.limit = Some(x.clone());
        }
        PanelEdit::Show(x) => {
            p.set_show_activity_state(*x);
            mp.head.head.show = Some(*x);
        }
        PanelEdit::Add(i, fluent) => {
            let old = std::mem::replace(p, Panel::accept_all());
            *p = fill_panel(old, mp, i, *fluent, env);
        }
    }
}

pub fn build_tele(s: &TeleSpec, env: &mut Env) -> (TelemetryProcessor<u8>, usize) {
    let h = &s.head;
    let h = Head { title: None, desc: None, ..h.clone() };
    let (tx, mut t) = match (&h.name, s.cap, h.setters) {
        (Some(n), None, false) => TelemetryProcessor::new_pair(n.clone()),
        (Some(n), Some(c), false) => TelemetryProcessor::new_pair_bounded(n.clone(), c as usize, false),
        (_, None, _) => TelemetryProcessor::new_pair_without_name(),
        (_, Some(c), _) => TelemetryProcessor::new_pair_bounded_without_name(c as usize, false),
    };
    if let (Some(n), true) = (&h.name, h.setters) {
        t.set_name(n.clone());
    }
    if h.twice {
        preset!(h, t, false, true);
    }
    if let Some(d) = h.limit {
        if h.setters {
            t.set_inactivity_limit(d.get());
        } else {
            t = t.inactivity_limit(d.get());
        }
    }
    if let Some(b) = h.show {
        if h.setters {
            t.set_show_activity_state(b);
        } else {
            t = t.show_activity_state(b);
        }
    }
    let mut m = MTele {
        head: MHead::new(&h, vclock::now_ns()),
        cockpits: vec![],
        handlers: vec![],
        snaps: vec![],
        queue: VecDeque::new(),
        cap: s.cap.map(|c| c as usize),
    };
    for item in &s.items {
        t = fill_tele(t, &mut m, item, !h.setters, env);
    }
    env.teles.push(m);
    env.txs.push((tx, env.teles.len() - 1));
    (t, env.teles.len() - 1)
}

pub fn fill_tele(mut t: TelemetryProcessor<u8>, m: &mut MTele, item: &TeleItem, fluent: bool, env: &mut Env) -> TelemetryProcessor<u8> {
    match item {
        TeleItem::Cockpit(c) => {
            let (c, mc) = build_cockpit(c, env);
            if fluent {
                t = t.cockpit(c);
            } else {
                t.add_cockpit(c);
            }
            m.add_cockpit(mc, env);
        }
        TeleItem::Handler(n) => {
            let (d, i) = put_node(t, n, fluent, env);
            t = d;
            m.handlers.push(i);
        }
        TeleItem::Snap(s) => {
            put_snap!(s, t, fluent);
            m.snaps.push(s.clone());
        }
    }
    t
}

/// Records how it is driven; claims the outcomes it was given.
pub struct Spy {
    spec: SpySpec,
    calls: Arc<Mutex<Vec<(usize, ProcessingStrategy)>>>,
}
impl ProcessesTelemetryMessages for Spy {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        let mut c = self.calls.lock().unwrap();
        c.push((max, strategy));
        let (processed, dropped, instruments_updated, observations_enqueued) = spy_outcome(&self.spec, c.len() - 1);
        ProcessingOutcome { processed, dropped, instruments_updated, observations_enqueued }
    }
}
impl PutsSnapshot for Spy {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(self.spec.name.clone(), self.calls.lock().unwrap().len() as u64);
    }
}
/// Any processor, boxed.
pub struct DynProc(pub Box<dyn ProcessesTelemetryMessages>);
impl ProcessesTelemetryMessages for DynProc {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.0.process(max, strategy)
    }
}
impl PutsSnapshot for DynProc {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.0.put_snapshot(into, d)
    }
}

pub fn build_proc(s: &ProcSpec, env: &mut Env) -> (Box<dyn ProcessesTelemetryMessages>, MChild) {
    match s {
        ProcSpec::Tele(t) => {
            let (t, i) = build_tele(t, env);
            (Box::new(t), MChild::Tele(i))
        }
        ProcSpec::Mount(m) => {
            let (r, m) = build_mount(m, env);
            (Box::new(r), MChild::Mount(m))
        }
        ProcSpec::Driver(s) => {
            let (r, i) = build_driver(s, env);
            (Box::new(r), MChild::Driver(i))
        }
        ProcSpec::Spy(s) => {
            let calls = Arc::new(Mutex::new(vec![]));
            env.spies.push(SpyLog { calls: calls.clone(), expected: vec![], spec: s.clone() });
            (Box::new(Spy { spec: s.clone(), calls }), MChild::Spy(env.spies.len() - 1))
        }
    }
}

/// Puts a processor into anything that takes some.
pub fn put_proc<A: AggregatesProcessors>(a: &mut A, s: &ProcSpec, env: &mut Env) -> MChild {
    match s {
        ProcSpec::Mount(m) if m.attached => {
            let (r, mut mm) = build_mount(m, env);
            let handle = a.attached_mount(r);
            env.pending.push(vec![]);
            env.handles.push((handle, env.pending.len() - 1));
            mm.pending = Some(env.pending.len() - 1);
            MChild::Mount(mm)
        }
        ProcSpec::Tele(t) => {
            let (t, i) = build_tele(t, env);
            a.add_processor(t);
            MChild::Tele(i)
        }
        ProcSpec::Driver(s) => {
            let (r, i) = build_driver(s, env);
            a.add_processor(r);
            MChild::Driver(i)
        }
        s => {
            let (r, m) = build_proc(s, env);
            a.add_processor(DynProc(r));
            m
        }
    }
}

pub fn build_mount(s: &MountSpec, env: &mut Env) -> (ProcessorMount, MMount) {
    let mut r = match (&s.name, s.setters) {
        (Some(n), false) => ProcessorMount::new(n.clone()),
        (Some(n), true) => {
            let mut r = ProcessorMount::default();
            r.set_name(n.clone());
            r
        }
        (None, _) => ProcessorMount::default(),
    };
    if let Some(d) = s.limit {
        if s.items.len() % 2 == 1 {
            r.set_inactivity_limit(Duration::from_nanos(1));
        }
        r.set_inactivity_limit(d.get());
    }
    let head = Head { name: s.name.clone(), limit: s.limit, ..no_head() };
    let mut m = MMount { head: MHead::new(&head, vclock::now_ns()), children: vec![], snaps: vec![], pending: None };
    for item in &s.items {
        match item {
            MountItem::Proc(ProcSpec::Mount(p)) if !p.attached && s.setters => {
                let (p, mp) = build_mount(p, env);
                r.add_processor_dyn(Box::new(p));
                m.children.push(MChild::Mount(mp));
            }
            MountItem::Proc(p) => {
                let c = put_proc(&mut r, p, env);
                m.children.push(c);
            }
            MountItem::Snap(x) => {
                if s.setters {
                    r.add_snapshooter_dyn(build_snap(x));
                } else {
                    r.add_snapshooter(DynSnap(build_snap(x)));
                }
                m.snaps.push(x.clone());
            }
        }
    }
    (r, m)
}

// ------------------------------------------------------------ histories

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum SMsg {
    AddCockpit(CockpitSpec),
    RemoveCockpit(String),
    AddPanel(String, PanelSpec),
    RemovePanel(String, String),
    AddHandler(NodeSpec),
    /// the others, with names that are in use
    RemoveNth(u8),
    AddPanelToNth(u8, Option<u8>, PanelSpec),
    RemoveNthPanel(u8, u8),
    /// so many cockpits with a panel each
    Town(u8),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum HOp {
    Send { tx: u8, label: u8, kind: Kind, age: i64 },
    Burst { tx: u8, n: u8, label: u8, kind: Kind },
    /// to every transmitter, another number to each
    Spread { n: u8, label: u8, kind: Kind },
    Msg(u8, SMsg),
    Process(usize, Strat),
    Advance(u64),
    Snap(bool),
    PutProc(u8, ProcSpec),
    PutSnap(u8, SnapSpec),
    AttachMount(u8, MountSpec),
    /// so many snapshooters and processors at once
    PutMany(u8, u16),
    CloneHandle(u8),
    DropHandle(u8),
    DropTx(u8),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct HCase {
    pub root: ProcSpec,
    pub ops: Vec<HOp>,
}

pub fn smsg(g: G) -> impl Strategy<Value = SMsg> {
    prop_oneof![
        3 => cockpit(g, 1).prop_map(SMsg::AddCockpit),
        2 => comp_name().prop_map(SMsg::RemoveCockpit),
        3 => (comp_name(), panel(g, 1)).prop_map(|(c, p)| SMsg::AddPanel(c, p)),
        2 => (comp_name(), comp_name()).prop_map(|(c, p)| SMsg::RemovePanel(c, p)),
        1 => node(g, 1).prop_map(SMsg::AddHandler),
        1 => any::<u8>().prop_map(SMsg::RemoveNth),
        2 => (any::<u8>(), proptest::option::weighted(0.3, any::<u8>()), panel(g, 1)).prop_map(|(c, q, p)| SMsg::AddPanelToNth(c, q, p)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(c, p)| SMsg::RemoveNthPanel(c, p)),
        1 => prop_oneof![1u8..10, 10u8..70].prop_map(SMsg::Town),
    ]
}
pub fn limit() -> impl Strategy<Value = usize> {
    prop_oneof![8 => Just(1000usize), 4 => 0usize..6, 2 => Just(usize::MAX), 1 => (0u32..64, 0usize..3).prop_map(|(s, d)| (1usize << s) - 1 + d)]
}
pub fn strat() -> impl Strategy<Value = Strat> {
    prop_oneof![
        12 => Just(Strat::All),
        1 => Just(Strat::Drop),
        2 => (prop_oneof![Just(0u64), 0u64..(3 * SEC), Just(30 * SEC)], any::<bool>()).prop_map(|(max_age_ns, drop_deltas)| Strat::Older { max_age_ns, drop_deltas }),
    ]
}
pub fn hop(g: G) -> BoxedStrategy<HOp> {
    let k = if g.tame { tame_kind().boxed() } else { kind().boxed() };
    let k2 = if g.tame { tame_kind().boxed() } else { kind().boxed() };
    let common = prop_oneof![
        8 => (any::<u8>(), label(), k, prop_oneof![3 => Just(0i64), 1 => -10_000_000_000i64..40_000_000_000])
            .prop_map(|(tx, label, kind, age)| HOp::Send { tx, label, kind, age }),
        2 => (any::<u8>(), 0u8..12, label(), k2).prop_map(|(tx, n, label, kind)| HOp::Burst { tx, n, label, kind }),
        5 => (limit(), strat()).prop_map(|(m, s)| HOp::Process(m, s)),
        4 => prop_oneof![60 => step(), 1 => leap(53)].prop_map(HOp::Advance),
        3 => any::<bool>().prop_map(HOp::Snap),
    ]
    .boxed();
    let mut arms: Vec<(u32, BoxedStrategy<HOp>)> = vec![(22, common)];
    if g.structural > 0 {
        arms.push((g.structural, (any::<u8>(), smsg(g)).prop_map(|(t, m)| HOp::Msg(t, m)).boxed()));
    }
    if g.attached {
        let a = prop_oneof![
            3 => (any::<u8>(), proc_spec(G { attached: false, ..g }, 1)).prop_map(|(h, p)| HOp::PutProc(h, p)),
            2 => (any::<u8>(), snap_spec()).prop_map(|(h, s)| HOp::PutSnap(h, s)),
            2 => (any::<u8>(), mount(G { attached: false, ..g }, 0)).prop_map(|(h, m)| HOp::AttachMount(h, m)),
            1 => any::<u8>().prop_map(HOp::CloneHandle),
            1 => any::<u8>().prop_map(HOp::DropHandle),
            1 => any::<u8>().prop_map(HOp::DropTx),
            1 => (any::<u8>(), prop_oneof![20 => 2u16..30, 2 => 30u16..300, 1 => 1_000u16..1_200]).prop_map(|(h, n)| HOp::PutMany(h, n)),
        ];
        arms.push((9, a.boxed()));
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}
pub fn hcase(g: G, root: impl Strategy<Value = ProcSpec>) -> impl Strategy<Value = HCase> {
    (root, vec(hop(g), 1..g.ops)).prop_map(|(root, ops)| HCase { root, ops })
}

impl Env {
    pub fn tick(&mut self) {
        self.now = vclock::now_ns();
    }
    /// Sends an observation, and does the same to the model.
    pub fn send(&mut self, tx: u8, label: u8, kind: Kind, age: i64) {
        if self.txs.is_empty() {
            return;
        }
        self.send_to(tx as usize % self.txs.len(), label, kind, age)
    }
    pub fn send_to(&mut self, tx: usize, label: u8, kind: Kind, age: i64) {
        let (t, i) = &self.txs[tx];
        let ts = vclock::now_ns() as i128 - age as i128;
        let room = self.teles[*i].room();
        t.transmit(kind.obs(label, at(ts)));
        if room {
            self.teles[*i].queue.push_back(MMsg::Obs(label, kind, ts));
        }
    }
    pub fn msg(&mut self, tx: u8, m: &SMsg) {
        if self.txs.is_empty() {
            return;
        }
        let (t, i) = self.txs[tx as usize % self.txs.len()].clone();
        // names that are in use, if there are some
        let named: Vec<&MCockpit> = self.teles[i].cockpits.iter().filter(|c| c.head.head.name.is_some()).collect();
        let nth = |n: u8| (!named.is_empty()).then(|| named[n as usize * 7 % named.len()]);
        let cname = |c: &MCockpit| c.head.head.name.clone().unwrap_or_default();
        let pname = |c: &MCockpit, p: u8| {
            let n: Vec<&String> = c.panels.iter().filter_map(|p| p.head.head.name.as_ref()).collect();
            (!n.is_empty()).then(|| n[p as usize % n.len()].clone())
        };
        let resolved = match m {
            SMsg::RemoveNth(c) => nth(*c).map(|c| SMsg::RemoveCockpit(cname(c))),
            SMsg::AddPanelToNth(c, like, p) => nth(*c).map(|c| {
                let mut p = p.clone();
                if let Some(n) = like.and_then(|q| pname(c, q)) {
                    p.head.name = Some(n);
                }
                SMsg::AddPanel(cname(c), p)
            }),
            SMsg::RemoveNthPanel(c, p) => nth(*c).and_then(|c| pname(c, *p).map(|p| SMsg::RemovePanel(cname(c), p))),
            // a running driver would make it a matter of luck which are accepted
            SMsg::Town(_) if self.teles[i].cap.is_some() => None,
            SMsg::Town(n) => {
                for k in 0..*n {
                    let head = |n: String| Head { name: Some(n), ..no_head() };
                    let items = vec![PanelItem::Handler(NodeSpec::Rec(RecSpec { name: "r".into(), reports: 1 }))];
                    let panel = PanelSpec { head: head("p".into()), filter: FilterSpec::All(0), items };
                    let c = CockpitSpec { head: head(format!("k{}", k)), items: vec![CockpitItem::Panel(panel)] };
                    self.msg(tx, &SMsg::AddCockpit(c));
                }
                return;
            }
            m => Some(m.clone()),
        };
        let Some(m) = &resolved else { return };
        let room = self.teles[i].room();
        let mm = match m {
            SMsg::AddCockpit(c) => {
                let (c, m) = build_cockpit(c, self);
                t.add_cockpit(c);
                MMsg::AddCockpit(m)
            }
            SMsg::RemoveCockpit(n) => {
                t.remove_cockpit(n.clone());
                MMsg::RemoveCockpit(n.clone())
            }
            SMsg::AddPanel(c, p) => {
                let (p, m) = build_panel(p, self);
                t.add_panel_to_cockpit(c.clone(), p);
                MMsg::AddPanel(c.clone(), m)
            }
            SMsg::RemovePanel(c, p) => {
                t.remove_panel_from_cockpit(c.clone(), p.clone());
                MMsg::RemovePanel(c.clone(), p.clone())
            }
            SMsg::AddHandler(n) => {
                let (_, m) = put_node(&t, n, false, self);
                MMsg::AddHandler(m)
            }
            _ => unreachable!(),
        };
        if room {
            self.teles[i].queue.push_back(mm);
        }
    }
    /// Every handler saw exactly what it should have.
    pub fn check_logs(&mut self, what: &str) -> Res {
        let (now, base) = (vclock::now_ns() as i128, real_now());
        for (i, r) in self.recs.iter_mut().enumerate() {
            let log = r.log.lock().unwrap();
            ensure!(log.len() == r.expected.len(), "{}: handler {} saw {} observations, expected {}", what, i, log.len(), r.expected.len());
            for j in r.checked..log.len() {
                let (l, k, _, ts) = r.expected[j];
                let t = if ts >= now {
                    base + std::time::Duration::from_nanos((ts - now) as u64)
                } else {
                    base - std::time::Duration::from_nanos((now - ts) as u64)
                };
                let g = &log[j];
                ensure!(
                    g.label == l && g.kind == k && g.ts == t,
                    "{}: handler {} observation {}: {:?} {:?} (timestamp right: {}), expected {:?} {:?}",
                    what,
                    i,
                    j,
                    g.label,
                    g.kind,
                    g.ts == t,
                    l,
                    k
                );
            }
            r.checked = log.len();
        }
        for (i, s) in self.spies.iter().enumerate() {
            let c = s.calls.lock().unwrap();
            let want: Vec<_> = s.expected.iter().map(|(m, s)| (*m, s.get())).collect();
            ensure!(*c == want, "{}: processor {} was run with {:?}, expected {:?}", what, i, c, want);
        }
        for (t, i) in &self.txs {
            let n = self.teles[*i].queue.len();
            ensure!(t.queue_size() == n, "{}: queue of processor {} has {} messages, expected {}", what, i, t.queue_size(), n);
        }
        Ok(())
    }
}

pub struct System {
    pub env: Env,
    pub root: MChild,
    pub real: Box<dyn ProcessesTelemetryMessages>,
}
impl System {
    pub fn new(root: &ProcSpec) -> System {
        let mut env = Env::default();
        env.tick();
        let (real, root) = build_proc(root, &mut env);
        System { env, root, real }
    }
    pub fn check(&mut self, what: &str, d: bool) -> Result<Snapshot, String> {
        self.env.tick();
        let s = snap(&*self.real, d);
        let mut want = Level::default();
        self.root.expect(&mut want, d, &mut self.env);
        compare(what, &s, &want)?;
        let again = snap(&*self.real, d);
        ensure!(same_snap(&s, &again), "{}: a second snapshot differs: {:?} and {:?}", what, s, again);
        Ok(s)
    }
    pub fn step(&mut self, i: usize, op: &HOp) -> Res {
        let what = format!("op {}", i);
        let env = &mut self.env;
        env.tick();
        let handle = |h: &u8, env: &Env| (!env.handles.is_empty()).then(|| *h as usize % env.handles.len());
        match op {
            HOp::Send { tx, label, kind, age } => env.send(*tx, *label, *kind, *age),
            HOp::Burst { tx, n, label, kind } => {
                for k in 0..*n {
                    env.send(*tx, label.wrapping_add(k % 4), *kind, k as i64);
                }
            }
            HOp::Spread { n, label, kind } => {
                for t in 0..env.txs.len() {
                    for k in 0..(t * 7 + 3) % (*n as usize + 1) {
                        env.send_to(t, label.wrapping_add((t + k) as u8 % 5), *kind, 0);
                    }
                }
            }
            HOp::Msg(tx, m) => env.msg(*tx, m),
            HOp::Process(max, strat) => {
                let o = self.real.process(*max, strat.get());
                let w = self.root.process(*max, *strat, env);
                w.check(&what, &o)?;
            }
            HOp::Advance(n) => vclock::advance(*n),
            HOp::Snap(d) => {
                self.check(&what, *d)?;
            }
            HOp::PutProc(h, p) => {
                if let Some(h) = handle(h, env) {
                    let (mut a, k) = env.handles[h].clone();
                    let m = match p {
                        ProcSpec::Tele(t) if t.head.setters => {
                            let (t, i) = build_tele(t, env);
                            a.put_processor(t);
                            MChild::Tele(i)
                        }
                        p => put_proc(&mut a, p, env),
                    };
                    env.pending[k].push(Pending::Child(m));
                }
            }
            HOp::PutSnap(h, s) => {
                if let Some(h) = handle(h, env) {
                    let (a, k) = &mut env.handles[h];
                    if matches!(s, SnapSpec::Plain(_)) {
                        a.add_snapshooter(DynSnap(build_snap(s)));
                    } else {
                        a.put_snapshooter(DynSnap(build_snap(s)));
                    }
                    env.pending[*k].push(Pending::Snap(s.clone()));
                }
            }
            HOp::PutMany(h, n) => {
                if let Some(h) = handle(h, env) {
                    for i in 0..*n {
                        let k = env.handles[h].1;
                        if i % 3 == 2 {
                            let s = SpySpec { name: format!("x{}", i), outcomes: vec![] };
                            let (p, c) = build_proc(&ProcSpec::Spy(s), env);
                            env.handles[h].0.add_processor(DynProc(p));
                            env.pending[k].push(Pending::Child(c));
                        } else {
                            let s = SnapSpec::Plain(Fixed(vec![(format!("s{}", i), SItem::U(i as u64))]));
                            env.handles[h].0.add_snapshooter(DynSnap(build_snap(&s)));
                            env.pending[k].push(Pending::Snap(s));
                        }
                    }
                }
            }
            HOp::AttachMount(h, m) => {
                if let Some(h) = handle(h, env) {
                    let (r, mut mm) = build_mount(m, env);
                    let (a, k) = &mut env.handles[h];
                    let k = *k;
                    let new = if m.setters { a.attach_mount::<ProcessorMount>(r) } else { a.attached_mount(r) };
                    env.pending.push(vec![]);
                    let n = env.pending.len() - 1;
                    mm.pending = Some(n);
                    env.handles.push((new, n));
                    env.pending[k].push(Pending::Child(MChild::Mount(mm)));
                }
            }
            HOp::CloneHandle(h) => {
                if let Some(h) = handle(h, env) {
                    let c = env.handles[h].clone();
                    env.handles.push(c);
                }
            }
            HOp::DropHandle(h) => {
                if let Some(h) = handle(h, env) {
                    env.handles.remove(h);
                }
            }
            HOp::DropTx(t) => {
                if !env.txs.is_empty() {
                    let t = *t as usize % env.txs.len();
                    env.txs.remove(t);
                }
            }
        }
        self.env.check_logs(&what)
    }
    /// to the end of all queues, then a last look
    pub fn finish(&mut self) -> Res {
        self.env.tick();
        for _ in 0..2 {
            let o = self.real.process(usize::MAX, ProcessingStrategy::ProcessAll);
            let w = self.root.process(usize::MAX, Strat::All, &mut self.env);
            w.check("at the end", &o)?;
        }
        self.env.check_logs("at the end")?;
        self.check("at the end", true)?;
        self.check("at the end", false)?;
        Ok(())
    }
}

pub fn run_hier(c: &HCase) -> Result<System, String> {
    let mut s = System::new(&c.root);
    s.check("at the start", true)?;
    for (i, op) in c.ops.iter().enumerate() {
        s.step(i, op)?;
    }
    s.finish()?;
    Ok(s)
}
