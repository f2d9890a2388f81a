//! C29 components can be changed and looked at at any time, and tell the truth.
use super::c16::{snapshot_of, tree, Item};
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::cockpit::Cockpit;
use metrix::instruments::polled::{ConstantValue, PollingInstrument};
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::{Descriptive, HandlesObservations, PutsSnapshot};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------ live structures

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Name(String),
    Title(String),
    Desc(String),
    Limit(Dur),
    Show(bool),
    Panel(PanelItem, bool),
    Cockpit(CockpitItem, bool),
    Tele(TeleItem, bool),
    Mount(MountItem),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum LOp {
    See { label: u8, kind: Kind, age: i64 },
    Advance(u64),
    Snap(bool),
    Edit(Edit),
    Look,
    /// what is behind the queue
    Process(usize, Strat),
    Msg(SMsg),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Root {
    Panel(PanelSpec),
    Cockpit(CockpitSpec),
    Tele(TeleSpec),
    Mount(MountSpec),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LCase {
    root: Root,
    ops: Vec<LOp>,
}

fn g() -> G {
    G { limits: 3, kinds: plain_kinds, attached: false, spies: true, tame: true, ops: 30, structural: 3 }
}
fn edit(root: &Root) -> BoxedStrategy<Edit> {
    let g = g();
    let text = || "[a-z ]{0,5}";
    let item = match root {
        Root::Panel(_) => (
            prop_oneof![
                4 => inst_node(g).prop_map(PanelItem::Inst),
                2 => node(g, 1).prop_map(PanelItem::Handler),
                1 => snap_spec().prop_map(PanelItem::Snap),
                2 => panel(g, 0).prop_map(PanelItem::Panel),
            ],
            any::<bool>(),
        )
            .prop_map(|(i, f)| Edit::Panel(i, f))
            .boxed(),
        Root::Cockpit(_) => (
            prop_oneof![
                3 => panel(g, 1).prop_map(CockpitItem::Panel),
                2 => node(g, 1).prop_map(CockpitItem::Handler),
                1 => snap_spec().prop_map(CockpitItem::Snap),
                2 => comp_name().prop_map(CockpitItem::RemovePanel),
                4 => (any::<u8>(), panel_edit(g)).prop_map(|(n, e)| CockpitItem::Edit(n, e)),
            ],
            any::<bool>(),
        )
            .prop_map(|(i, f)| Edit::Cockpit(i, f))
            .boxed(),
        Root::Tele(_) => (
            prop_oneof![
                3 => cockpit(g, 1).prop_map(TeleItem::Cockpit),
                2 => node(g, 1).prop_map(TeleItem::Handler),
                1 => snap_spec().prop_map(TeleItem::Snap),
            ],
            any::<bool>(),
        )
            .prop_map(|(i, f)| Edit::Tele(i, f))
            .boxed(),
        Root::Mount(_) => prop_oneof![
            3 => proc_spec(g, 1).prop_map(MountItem::Proc),
            1 => snap_spec().prop_map(MountItem::Snap),
        ]
        .prop_map(Edit::Mount)
        .boxed(),
    };
    prop_oneof![
        3 => comp_name().prop_map(Edit::Name),
        1 => text().prop_map(Edit::Title),
        1 => text().prop_map(Edit::Desc),
        2 => dur().prop_map(Edit::Limit),
        1 => any::<bool>().prop_map(Edit::Show),
        8 => item,
    ]
    .boxed()
}
fn lcase() -> impl Strategy<Value = LCase> {
    let g = g();
    let root = prop_oneof![
        panel(g, 1).prop_map(Root::Panel),
        cockpit(g, 1).prop_map(Root::Cockpit),
        tele(g, 1).prop_map(Root::Tele),
        mount(g, 1).prop_map(Root::Mount),
    ];
    root.prop_flat_map(move |root| {
        let op = prop_oneof![
            10 => (label(), prop_oneof![4 => tame_kind().boxed(), 1 => kind().boxed()], 0i64..50_000_000_000).prop_map(|(label, kind, age)| LOp::See { label, kind, age }),
            4 => step().prop_map(LOp::Advance),
            3 => any::<bool>().prop_map(LOp::Snap),
            6 => edit(&root).prop_map(LOp::Edit),
            3 => Just(LOp::Look),
            4 => (limit(), strat()).prop_map(|(m, s)| LOp::Process(m, s)),
            1 => smsg(g).prop_map(LOp::Msg),
        ];
        vec(op, 1..30).prop_map(move |ops| LCase { root: root.clone(), ops })
    })
}

enum Live {
    Panel(Panel<u8>, MPanel),
    Cockpit(Cockpit<u8>, MCockpit),
    Tele(TelemetryProcessor<u8>, usize),
    Mount(ProcessorMount, MChild),
}

fn texts<D: Descriptive>(what: &str, x: &D, h: &Head) -> Res {
    ensure!(x.title() == h.title.as_deref(), "{}: title() {:?}, expected {:?}", what, x.title(), h.title);
    ensure!(x.description() == h.desc.as_deref(), "{}: description() {:?}, expected {:?}", what, x.description(), h.desc);
    Ok(())
}
fn name_is(what: &str, got: Option<&str>, h: &Head) -> Res {
    ensure!(got == h.name.as_deref(), "{}: name {:?}, expected {:?}", what, got, h.name);
    Ok(())
}
/// One part of something shows what it should, asked alone.
fn part<P: PutsSnapshot + ?Sized>(what: &str, x: &P, d: bool, want: impl FnOnce(&mut Level)) -> Res {
    let mut s = Snapshot::default();
    x.put_snapshot(&mut s, d);
    let mut l = Level::default();
    want(&mut l);
    compare(what, &s, &l)
}
fn look_panel(what: &str, p: &Panel<u8>, m: &mut MPanel, d: bool, env: &mut Env) -> Res {
    name_is(what, p.name(), &m.head.head)?;
    texts(what, p, &m.head.head)?;
    for l in 0..=255u8 {
        ensure!(p.accepts_label(&l) == m.filter.accepts(l), "{}: accepts_label({}) is {}", what, l, p.accepts_label(&l));
    }
    part(what, p, d, |l| m.expect(l, d, env))
}
fn look_handlers(what: &str, hs: Vec<&dyn HandlesObservations<Label = u8>>, m: &mut [MNode], d: bool, env: &mut Env) -> Res {
    ensure!(hs.len() == m.len(), "{}: {} handlers, expected {}", what, hs.len(), m.len());
    for (i, (h, m)) in hs.iter().zip(m).enumerate() {
        part(&format!("{}: handler {}", what, i), *h, d, |l| m.expect(l, d, env))?;
    }
    Ok(())
}
fn look_snaps(what: &str, ss: Vec<&dyn PutsSnapshot>, m: &[SnapSpec], d: bool) -> Res {
    ensure!(ss.len() == m.len(), "{}: {} snapshooters, expected {}", what, ss.len(), m.len());
    for (i, (s, m)) in ss.iter().zip(m).enumerate() {
        part(&format!("{}: snapshooter {}", what, i), *s, d, |l| expect_snap(m, l, d))?;
    }
    Ok(())
}
fn look_cockpit(what: &str, c: &Cockpit<u8>, m: &mut MCockpit, d: bool, env: &mut Env) -> Res {
    name_is(what, c.get_name(), &m.head.head)?;
    texts(what, c, &m.head.head)?;
    let ps = c.get_panels();
    ensure!(ps.len() == m.panels.len(), "{}: {} panels, expected {}", what, ps.len(), m.panels.len());
    for (i, (p, m)) in ps.iter().zip(m.panels.iter_mut()).enumerate() {
        look_panel(&format!("{}: panel {}", what, i), p, m, d, env)?;
    }
    look_handlers(what, c.get_handlers(), &mut m.handlers, d, env)?;
    look_snaps(what, c.get_snapshooters(), &m.snaps, d)?;
    part(what, c, d, |l| m.expect(l, d, env))
}
fn look_tele(what: &str, t: &TelemetryProcessor<u8>, m: &mut MTele, d: bool, env: &mut Env) -> Res {
    name_is(what, t.get_name(), &m.head.head)?;
    let cs = t.get_cockpits();
    ensure!(cs.len() == m.cockpits.len(), "{}: {} cockpits, expected {}", what, cs.len(), m.cockpits.len());
    for (i, (c, m)) in cs.iter().zip(m.cockpits.iter_mut()).enumerate() {
        look_cockpit(&format!("{}: cockpit {}", what, i), c, m, d, env)?;
    }
    look_handlers(what, t.get_handlers(), &mut m.handlers, d, env)?;
    look_snaps(what, t.get_snapshooters(), &m.snaps, d)?;
    part(what, t, d, |l| m.expect(l, d, env))
}
fn look_mount(what: &str, r: &ProcessorMount, c: &mut MChild, d: bool, env: &mut Env) -> Res {
    let MChild::Mount(m) = c else { unreachable!() };
    name_is(what, r.name(), &m.head.head)?;
    let ps = r.processors();
    ensure!(ps.len() == m.children.len(), "{}: {} processors, expected {}", what, ps.len(), m.children.len());
    for (i, (p, m)) in ps.iter().zip(m.children.iter_mut()).enumerate() {
        part(&format!("{}: processor {}", what, i), *p, d, |l| m.expect(l, d, env))?;
    }
    look_snaps(what, r.snapshooters(), &m.snaps, d)?;
    part(what, r, d, |l| c.expect(l, d, env))
}

impl Live {
    fn look(&mut self, what: &str, d: bool, env: &mut Env) -> Res {
        env.tick();
        match self {
            Live::Panel(p, m) => look_panel(what, p, m, d, env),
            Live::Cockpit(c, m) => look_cockpit(what, c, m, d, env),
            Live::Tele(t, i) => with_tele(*i, env, |m, env| look_tele(what, t, m, d, env)),
            Live::Mount(r, m) => look_mount(what, r, m, d, env),
        }
    }
    fn snap(&mut self, what: &str, d: bool, env: &mut Env) -> Res {
        env.tick();
        match self {
            Live::Panel(p, m) => part(what, p, d, |l| m.expect(l, d, env)),
            Live::Cockpit(c, m) => part(what, c, d, |l| m.expect(l, d, env)),
            Live::Tele(t, i) => part(what, t, d, |l| with_tele(*i, env, |m, env| m.expect(l, d, env))),
            Live::Mount(r, m) => part(what, r, d, |l| m.expect(l, d, env)),
        }
    }
    /// One change; whether it was one.
    fn edit(&mut self, e: &Edit, env: &mut Env) -> bool {
        env.tick();
        match (self, e) {
            (Live::Panel(p, m), Edit::Name(x)) => edit_panel(p, m, &PanelEdit::Name(x.clone()), env),
            (Live::Panel(p, m), Edit::Title(x)) => edit_panel(p, m, &PanelEdit::Title(x.clone()), env),
            (Live::Panel(p, m), Edit::Desc(x)) => edit_panel(p, m, &PanelEdit::Desc(x.clone()), env),
            (Live::Panel(p, m), Edit::Limit(x)) => edit_panel(p, m, &PanelEdit::Limit(*x), env),
            (Live::Panel(p, m), Edit::Show(x)) => edit_panel(p, m, &PanelEdit::Show(*x), env),
            (Live::Panel(p, m), Edit::Panel(i, f)) => edit_panel(p, m, &PanelEdit::Add(i.clone(), *f), env),
            (Live::Cockpit(c, m), e) => {
                let h = &mut m.head.head;
                match e {
                    Edit::Name(x) => {
                        c.set_name(x.clone());
                        h.name = Some(x.clone());
                    }
                    Edit::Title(x) => {
                        c.set_title(x.clone());
                        h.title = Some(x.clone());
                    }
                    Edit::Desc(x) => {
                        c.set_description(x.clone());
                        h.desc = Some(x.clone());
                    }
                    Edit::Limit(x) => {
                        c.set_inactivity_limit(x.get());
                        h.limit = Some(*x);
                    }
                    Edit::Show(x) => {
                        c.set_show_activity_state(*x);
                        h.show = Some(*x);
                    }
                    Edit::Cockpit(i, f) => {
                        let old = std::mem::take(c);
                        *c = fill_cockpit(old, m, i, *f, env);
                    }
                    _ => return false,
                }
            }
            (Live::Tele(t, i), e) => {
                return with_tele(*i, env, |m, env| {
                    let h = &mut m.head.head;
                    match e {
                        Edit::Name(x) => {
                            t.set_name(x.clone());
                            h.name = Some(x.clone());
                        }
                        Edit::Limit(x) => {
                            t.set_inactivity_limit(x.get());
                            h.limit = Some(*x);
                        }
                        Edit::Show(x) => {
                            t.set_show_activity_state(*x);
                            h.show = Some(*x);
                        }
                        Edit::Tele(i, f) => {
                            let old = std::mem::replace(t, TelemetryProcessor::new_pair_without_name().1);
                            *t = fill_tele(old, m, i, *f, env);
                        }
                        _ => return false,
                    }
                    true
                });
            }
            (Live::Mount(r, MChild::Mount(m)), e) => {
                let h = &mut m.head.head;
                match e {
                    Edit::Name(x) => {
                        r.set_name(x.clone());
                        h.name = Some(x.clone());
                    }
                    Edit::Limit(x) => {
                        r.set_inactivity_limit(x.get());
                        h.limit = Some(*x);
                    }
                    Edit::Mount(MountItem::Proc(p)) => {
                        let c = put_proc(r, p, env);
                        m.children.push(c);
                    }
                    Edit::Mount(MountItem::Snap(s)) => {
                        r.add_snapshooter_dyn(build_snap(s));
                        m.snaps.push(s.clone());
                    }
                    _ => return false,
                }
            }
            _ => return false,
        }
        true
    }
}

fn live(c: &LCase, o: &mut Obs) -> Res {
    let mut e = Env::default();
    let env = &mut e;
    env.tick();
    let mut l = match &c.root {
        Root::Panel(p) => {
            let (p, m) = build_panel(p, env);
            Live::Panel(p, m)
        }
        Root::Cockpit(p) => {
            let (p, m) = build_cockpit(p, env);
            Live::Cockpit(p, m)
        }
        Root::Tele(p) => {
            let (p, i) = build_tele(p, env);
            Live::Tele(p, i)
        }
        Root::Mount(p) => {
            let (p, m) = build_mount(p, env);
            Live::Mount(p, MChild::Mount(m))
        }
    };
    let (mut edits, mut after, mut looks) = (0, 0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("op {}", i);
        env.tick();
        match op {
            LOp::See { label, kind, age } => {
                let took = env.took;
                let ts = env.now as i128 - *age as i128;
                let seen = match &mut l {
                    Live::Panel(p, m) => Some((p.handle_observation(&kind.obs(*label, at(ts))), m.handle(*label, *kind, ts, env))),
                    Live::Cockpit(p, m) => Some((p.handle_observation(&kind.obs(*label, at(ts))), m.handle(*label, *kind, ts, env))),
                    _ => {
                        env.send(*label, *label, *kind, *age);
                        None
                    }
                };
                if let Some((n, (lo, hi))) = seen {
                    ensure!(n >= lo && n <= hi, "{}: {} instruments updated, expected {}", what, n, lo);
                }
                after += (edits > 0 && env.took > took) as usize;
            }
            LOp::Advance(n) => vclock::advance(*n),
            LOp::Snap(d) => l.snap(&what, *d, env)?,
            LOp::Look => {
                looks += 1;
                l.look(&what, i % 2 == 0, env)?
            }
            LOp::Edit(e) => {
                edits += l.edit(e, env) as usize;
            }
            LOp::Msg(m) => env.msg(0, m),
            LOp::Process(max, s) => {
                let took = env.took;
                match &mut l {
                    Live::Tele(t, i) => {
                        let got = t.process(*max, s.get());
                        let want = with_tele(*i, env, |m, env| m.process(*max, *s, env));
                        want.check(&what, &got)?;
                    }
                    Live::Mount(r, m) => {
                        let got = r.process(*max, s.get());
                        m.process(*max, *s, env).check(&what, &got)?;
                    }
                    _ => {}
                }
                after += (edits > 0 && env.took > took) as usize;
            }
        }
        env.check_logs(&what)?;
    }
    l.look("at the end", true, env)?;
    l.look("at the end", false, env)?;
    o.nontrivial_if(edits > 0 && after > 0);
    o.label(match l {
        Live::Panel(..) => "a panel",
        Live::Cockpit(..) => "a cockpit",
        Live::Tele(..) => "a processor",
        Live::Mount(..) => "a mount",
    });
    o.label_if(looks > 0, "looked at between changes");
    Ok(())
}

// ------------------------------------------------------------ instruments

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Change {
    Name(String),
    Title(String),
    Desc(String),
    Window(Dur),
    Invert(bool),
    Alt(Alt),
    ResetValue(SItem),
    Zero(bool),
    Cutoff(F),
    NoRate(u8),
    Reset(bool),
    Show(bool),
    Group(bool),
    Set(i64),
    Inc(u64),
    Unit(Unit),
    Track(usize),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum COp {
    Up(Kind),
    Advance(u64),
    Snap(bool),
    Change(Change, bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CCase {
    spec: InstSpec,
    ops: Vec<COp>,
}
fn change() -> impl Strategy<Value = Change> {
    prop_oneof![
        2 => name().prop_map(Change::Name),
        1 => "[a-z ]{0,5}".prop_map(Change::Title),
        1 => "[a-z ]{0,5}".prop_map(Change::Desc),
        3 => dur().prop_map(Change::Window),
        2 => any::<bool>().prop_map(Change::Invert),
        2 => alt().prop_map(|a| Change::Alt(a.unwrap_or(Alt::Pre("not_".into())))),
        1 => sitem().prop_map(Change::ResetValue),
        1 => any::<bool>().prop_map(Change::Zero),
        1 => (-20i32..6).prop_map(|e| Change::Cutoff(F(2f64.powi(e).to_bits()))),
        1 => (0u8..3).prop_map(Change::NoRate),
        1 => any::<bool>().prop_map(Change::Reset),
        1 => any::<bool>().prop_map(Change::Show),
        1 => any::<bool>().prop_map(Change::Group),
        2 => any_i64().prop_map(Change::Set),
        2 => any_u64().prop_map(Change::Inc),
        2 => prop_oneof![Just(Unit::Ns), Just(Unit::Us), Just(Unit::Ms), Just(Unit::S)].prop_map(Change::Unit),
        1 => (0usize..6).prop_map(Change::Track),
    ]
}
fn ccase() -> impl Strategy<Value = CCase> {
    let op = prop_oneof![
        6 => prop_oneof![2 => tame_kind().boxed(), 1 => kind().boxed()].prop_map(COp::Up),
        4 => step().prop_map(COp::Advance),
        3 => any::<bool>().prop_map(COp::Snap),
        6 => (change(), any::<bool>()).prop_map(|(c, f)| COp::Change(c, f)),
    ];
    (prop_oneof![1 => spec(any_kind()), 1 => spec(switch_kind()), 1 => spec(display_kind())], vec(op, 1..40)).prop_map(|(spec, ops)| CCase { spec, ops })
}

macro_rules! swap {
    ($r:expr, $x:ident => $e:expr) => {{
        let old = std::mem::replace($r, Real::Counter(Counter::new("")));
        *$r = match old {
            Real::Counter($x) => Real::Counter($e),
            Real::Gauge($x) => Real::Gauge($e),
            Real::Meter($x) => Real::Meter($e),
            Real::Histogram($x) => Real::Histogram($e),
            Real::ValueMeter($x) => Real::ValueMeter($e),
            Real::Display($x) => Real::Display($e),
            Real::LastOcc($x) => Real::LastOcc($e),
            Real::Staircase($x) => Real::Staircase($e),
            Real::Occ($x) => Real::Occ($e),
            Real::NonOcc($x) => Real::NonOcc($e),
            Real::Flag($x) => Real::Flag($e),
        };
    }};
}
macro_rules! all {
    ($r:expr, $x:ident => $e:expr) => {
        match $r {
            Real::Counter($x) => $e,
            Real::Gauge($x) => $e,
            Real::Meter($x) => $e,
            Real::Histogram($x) => $e,
            Real::ValueMeter($x) => $e,
            Real::Display($x) => $e,
            Real::LastOcc($x) => $e,
            Real::Staircase($x) => $e,
            Real::Occ($x) => $e,
            Real::NonOcc($x) => $e,
            Real::Flag($x) => $e,
        }
    };
}
/// `x.set(v)` or `x = x.fluent(v)`
macro_rules! put {
    ($r:ident, $v:ident, $f:expr, $x:ident, $val:expr, $set:ident, $flu:ident) => {{
        if $f {
            let old = std::mem::replace($r, Real::Counter(Counter::new("")));
            let Real::$v($x) = old else { unreachable!() };
            *$r = Real::$v($x.$flu($val));
        } else {
            let Real::$v($x) = $r else { unreachable!() };
            $x.$set($val);
        }
    }};
}

fn to_alternation(a: &Alt) -> metrix::instruments::switches::NameAlternation {
    use metrix::instruments::switches::NameAlternation as N;
    match a {
        Alt::Pre(s) => N::Prefix(s.clone()),
        Alt::Post(s) => N::Postfix(s.clone()),
        Alt::New(s) => N::Rename(s.clone()),
    }
}

/// Changes an instrument and its model; whether there was something to change.
fn apply(r: &mut Real, m: &mut Model, c: &Change, f: bool) -> bool {
    let now = vclock::now_ns();
    match c {
        Change::Name(n) => {
            if f {
                swap!(r, x => x.name(n.clone()));
            } else {
                all!(r, x => x.set_name(n.clone()));
            }
            m.spec.name = n.clone();
            return true;
        }
        Change::Title(n) => {
            if f {
                swap!(r, x => x.title(n.clone()));
            } else {
                all!(r, x => x.set_title(n.clone()));
            }
            m.spec.title = Some(n.clone());
            return true;
        }
        Change::Desc(n) => {
            if f {
                swap!(r, x => x.description(n.clone()));
            } else {
                all!(r, x => x.set_description(n.clone()));
            }
            m.spec.desc = Some(n.clone());
            return true;
        }
        _ => {}
    }
    let (updated, happened) = (m.updated_at(), m.happened());
    let silent = m.silent(now) as u128;
    match (c, &mut m.spec.kind) {
        (Change::Window(d), IKind::Staircase { off, .. }) => {
            put!(r, Staircase, f, x, d.get(), set_switch_off_after, switch_off_after);
            *off = Some(*d);
        }
        (Change::Window(d), IKind::Occ { within, .. }) => {
            // setting the window starts anew, so only before anything happened
            if happened {
                return false;
            }
            put!(r, Occ, f, x, d.get(), set_if_happened_within, if_happened_within);
            *within = Some(*d);
        }
        (Change::Window(d), IKind::NonOcc { within, .. }) => {
            put!(r, NonOcc, f, x, d.get(), set_if_not_happened_within, if_not_happened_within);
            *within = Some(*d);
        }
        (Change::Window(d), IKind::Display { reset_after, .. }) => {
            // a value already gone need not come back
            let gone = |l: &Option<Dur>| l.is_some_and(|l| updated.is_some_and(|u| (now - u) as u128 > l.ns()));
            if gone(reset_after) {
                return false;
            }
            put!(r, Display, f, x, d.get(), set_reset_after, reset_after);
            *reset_after = Some(*d);
        }
        (Change::Window(_) | Change::Reset(_), IKind::Histogram { limit: Some(l), .. }) if silent >= l.ns() => {
            // whether it was reset already cannot be told
            return false;
        }
        (Change::Window(d), IKind::Histogram { limit, .. }) => {
            put!(r, Histogram, f, x, d.get(), set_inactivity_limit, inactivity_limit);
            *limit = Some(*d);
        }
        (Change::Invert(b), IKind::Staircase { invert, .. }) => {
            let Real::Staircase(x) = r else { unreachable!() };
            if *b && f {
                x.enable_invert();
            } else {
                x.set_invert(*b);
            }
            *invert = *b;
        }
        (Change::Invert(b), IKind::Occ { invert, .. }) => {
            put!(r, Occ, f, x, *b, set_invert_enabled, invert_enabled);
            *invert = *b;
        }
        (Change::Invert(b), IKind::NonOcc { invert, .. }) => {
            put!(r, NonOcc, f, x, *b, set_invert_enabled, invert_enabled);
            *invert = *b;
        }
        (Change::Alt(a), IKind::Staircase { alt, .. }) => {
            put!(r, Staircase, f, x, to_alternation(a), set_show_inverted, show_inverted);
            *alt = Some(a.clone());
        }
        (Change::Alt(a), IKind::Occ { alt, .. }) => {
            put!(r, Occ, f, x, to_alternation(a), set_show_inverted, show_inverted);
            *alt = Some(a.clone());
        }
        (Change::Alt(a), IKind::NonOcc { alt, .. }) => {
            put!(r, NonOcc, f, x, to_alternation(a), set_show_inverted, show_inverted);
            *alt = Some(a.clone());
        }
        (Change::Alt(a), IKind::Flag { alt, .. }) => {
            put!(r, Flag, f, x, to_alternation(a), set_show_inverted, show_inverted);
            *alt = Some(a.clone());
        }
        (Change::ResetValue(v), IKind::Display { reset_value, .. }) => {
            // "and as an initial value"
            if updated.is_some() {
                return false;
            }
            put!(r, Display, f, x, v.kind(), set_reset_value, reset_value);
            *reset_value = Some(v.clone());
            m.force_display(v.kind());
        }
        (Change::Zero(b), IKind::LastOcc { zero }) => {
            put!(r, LastOcc, f, x, *b, set_make_none_zero, make_none_zero);
            *zero = *b;
        }
        (Change::Cutoff(v), IKind::Meter(rates)) => {
            put!(r, Meter, f, x, v.get(), set_lower_cutoff, lower_cutoff);
            rates.cutoff = Some(*v);
        }
        (Change::Cutoff(v), IKind::ValueMeter(rates, _)) => {
            put!(r, ValueMeter, f, x, v.get(), set_lower_cutoff, lower_cutoff);
            rates.cutoff = Some(*v);
        }
        (Change::NoRate(k), IKind::Meter(rates)) => match k {
            0 => {
                put!(r, Meter, f, x, false, set_one_minute_rate_enabled, one_minute_rate_enabled);
                rates.one = false;
            }
            1 => {
                put!(r, Meter, f, x, false, set_five_minute_rate_enabled, five_minute_rate_enabled);
                rates.five = false;
            }
            _ => {
                put!(r, Meter, f, x, false, set_fifteen_minute_rate_enabled, fifteen_minute_rate_enabled);
                rates.fifteen = false;
            }
        },
        (Change::NoRate(k), IKind::ValueMeter(rates, _)) => match k {
            0 => {
                put!(r, ValueMeter, f, x, false, set_one_minute_rate_enabled, one_minute_rate_enabled);
                rates.one = false;
            }
            1 => {
                put!(r, ValueMeter, f, x, false, set_five_minute_rate_enabled, five_minute_rate_enabled);
                rates.five = false;
            }
            _ => {
                put!(r, ValueMeter, f, x, false, set_fifteen_minute_rate_enabled, fifteen_minute_rate_enabled);
                rates.fifteen = false;
            }
        },
        (Change::Reset(b), IKind::Histogram { reset, .. }) => {
            put!(r, Histogram, f, x, *b, set_reset_after_inactivity, reset_after_inactivity);
            *reset = *b;
        }
        (Change::Show(b), IKind::Histogram { show, .. }) => {
            put!(r, Histogram, f, x, *b, set_show_activity_state, show_activity_state);
            *show = *b;
        }
        (Change::Group(b), IKind::Gauge { group, .. }) => {
            let old = std::mem::replace(r, Real::Counter(Counter::new("")));
            let Real::Gauge(x) = old else { unreachable!() };
            *r = Real::Gauge(x.group_values(*b));
            *group = *b;
        }
        (Change::Set(v), IKind::Gauge { .. }) => {
            if f {
                let old = std::mem::replace(r, Real::Counter(Counter::new("")));
                let Real::Gauge(x) = old else { unreachable!() };
                *r = Real::Gauge(x.value(*v));
            } else {
                let Real::Gauge(x) = r else { unreachable!() };
                x.set(metrix::ObservedValue::SignedInteger(*v));
            }
            m.update(Kind::Value(Val::I(*v)), now);
        }
        (Change::Unit(u), IKind::Gauge { unit, .. }) => {
            put!(r, Gauge, f, x, u.tu(), set_display_time_unit, display_time_unit);
            *unit = *u;
        }
        (Change::Unit(u), IKind::Histogram { unit, .. }) => {
            put!(r, Histogram, f, x, u.tu(), set_display_time_unit, display_time_unit);
            *unit = *u;
        }
        (Change::Unit(u), IKind::ValueMeter(_, unit)) => {
            put!(r, ValueMeter, f, x, u.tu(), set_display_time_unit, display_time_unit);
            *unit = *u;
        }
        (Change::Track(n), IKind::Gauge { track, .. }) => {
            // starting again is another matter
            if *n > 0 && track.is_some_and(|t| t > 0) {
                return false;
            }
            put!(r, Gauge, f, x, *n, set_tracking, tracking);
            if *n > 0 {
                *track = Some(*n);
                m.start_tracking(*n, now);
            }
        }
        (Change::Inc(n), IKind::Counter) => {
            let Real::Counter(x) = r else { unreachable!() };
            if f {
                x.inc();
                m.update(Kind::One, now);
            } else {
                x.inc_by(*n);
                m.update(Kind::Many(*n), now);
            }
        }
        (Change::Set(v), IKind::Flag { .. }) => {
            let old = std::mem::replace(r, Real::Counter(Counter::new("")));
            let Real::Flag(x) = old else { unreachable!() };
            *r = Real::Flag(x.state(*v > 0));
            m.update(Kind::Value(Val::B(*v > 0)), now);
        }
        _ => return false,
    }
    true
}

/// A gauge keeps its value when the seconds it is tracked over change.
fn tracked_again(was: usize, is: usize, f: bool) -> Res {
    let v = is as i64 + 3;
    let mut g = Gauge::new("g").tracking(was);
    g.set(metrix::ObservedValue::SignedInteger(v));
    let mut g = if f {
        g.tracking(is)
    } else {
        g.set_tracking(is);
        g
    };
    ensure_eq!(g.get(), Some(v), "the value of a gauge tracked over {} seconds once it is tracked over {}", was, is);
    g.set_tracking(0);
    ensure_eq!(g.get(), Some(v), "the value of a tracked gauge whose seconds are set to 0");
    Ok(())
}

/// Everything an instrument tells about itself.
fn read(what: &str, r: &Real, m: &Model) -> Res {
    let s = &m.spec;
    let (name, title, desc) = all!(r, x => (x.get_name(), Descriptive::title(x), Descriptive::description(x)));
    ensure!(name == s.name, "{}: get_name() {:?}, expected {:?}", what, name, s.name);
    ensure!(title == s.title.as_deref(), "{}: title() {:?}, expected {:?}", what, title, s.title);
    ensure!(desc == s.desc.as_deref(), "{}: description() {:?}, expected {:?}", what, desc, s.desc);
    let default = Duration::from_secs(60);
    let same = |got: Duration, want: &Option<Dur>| got == want.map(|d| d.get()).unwrap_or(default);
    match (r, &s.kind) {
        (Real::Staircase(x), IKind::Staircase { off, invert, .. }) => {
            ensure!(same(x.get_switch_off_after(), off), "{}: get_switch_off_after() {:?}, expected {:?}", what, x.get_switch_off_after(), off);
            ensure!(x.invert() == *invert, "{}: invert() {}", what, x.invert());
        }
        (Real::Occ(x), IKind::Occ { within, invert, .. }) => {
            ensure!(same(x.get_if_happened_within(), within), "{}: get_if_happened_within() {:?}, expected {:?}", what, x.get_if_happened_within(), within);
            ensure!(x.is_inverted() == *invert, "{}: is_inverted() {}", what, x.is_inverted());
        }
        (Real::NonOcc(x), IKind::NonOcc { within, invert, .. }) => {
            ensure!(same(x.get_if_not_happened_within(), within), "{}: get_if_not_happened_within() {:?}, expected {:?}", what, x.get_if_not_happened_within(), within);
            ensure!(x.is_inverted() == *invert, "{}: is_inverted() {}", what, x.is_inverted());
        }
        (Real::Display(x), IKind::Display { reset_after, reset_value }) => {
            ensure!(x.get_reset_after() == reset_after.map(|d| d.get()), "{}: get_reset_after() {:?}, expected {:?}", what, x.get_reset_after(), reset_after);
            let ok = match (x.get_reset_value(), reset_value) {
                (None, None) => true,
                (Some(a), Some(b)) => same_item(a, &b.kind()),
                _ => false,
            };
            ensure!(ok, "{}: get_reset_value() {:?}, expected {:?}", what, x.get_reset_value(), reset_value);
        }
        (Real::LastOcc(x), IKind::LastOcc { zero }) => {
            ensure!(x.get_make_none_zero() == *zero, "{}: get_make_none_zero() {}", what, x.get_make_none_zero());
        }
        _ => {}
    }
    Ok(())
}

fn instruments(c: &CCase, o: &mut Obs) -> Res {
    let (mut r, mut m) = c.spec.build();
    let (mut changes, mut after, mut snaps) = (0, 0, 0);
    let see = |what: &str, r: &Real, m: &mut Model, d: bool| -> Res {
        let s = r.snap(d);
        let mut want = Level::default();
        m.expect(&mut want, d, vclock::now_ns());
        compare(what, &s, &want)
    };
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("op {}", i);
        let now = vclock::now_ns();
        match op {
            COp::Up(k) => {
                let n = r.update(&k.update(at(now as i128)));
                let (lo, hi) = m.update(*k, now);
                ensure!(n >= lo && n <= hi, "{}: update reported {} instruments, expected {}", what, n, lo);
                after += (changes > 0 && lo > 0) as usize;
            }
            COp::Advance(n) => vclock::advance(*n),
            COp::Snap(d) => {
                see(&what, &r, &mut m, *d)?;
                snaps += (changes > 0) as usize;
            }
            COp::Change(ch, f) => {
                if let (Change::Track(n), IKind::Gauge { track: Some(t), .. }) = (ch, &m.spec.kind) {
                    if *n > 0 {
                        tracked_again(*t, *n, *f)?;
                    }
                }
                changes += apply(&mut r, &mut m, ch, *f) as usize
            }
        }
        read(&what, &r, &m)?;
    }
    see("at the end", &r, &mut m, true)?;
    see("at the end", &r, &mut m, false)?;
    // inside of an adapter it is still the same
    let before = r.snap(true);
    if let Real::Gauge(x) = r {
        let name = m.spec.name.clone();
        let mut a = GaugeAdapter::<u8>::accept(AcceptAllLabels, x);
        ensure!(a.gauge().get() == m.gauge_value() && a.gauge().get_name() == name, "gauge() of an adapter shows another gauge: {:?}", a.gauge().get());
        part("gauge adapter", &a, true, |l| m.expect(l, true, vclock::now_ns()))?;
        a.gauge_mut().set_title("t");
        ensure!(Descriptive::title(a.gauge()) == Some("t"), "gauge_mut() of an adapter changes another gauge");
        ensure!(a.into_inner().get() == m.gauge_value(), "into_inner() of an adapter gives another gauge");
    } else {
        let x = r;
        let a = InstrumentAdapter::<u8, Real>::accept(AcceptAllLabels, x);
        ensure!(same_snap(&a.instrument().snap(true), &before), "instrument() of an adapter shows {:?}, expected {:?}", a.instrument().snap(true), before);
    }
    o.nontrivial_if(changes > 0 && after > 0);
    o.label_if(changes > 0 && snaps > 0, "looked at after a change");
    Ok(())
}

// ------------------------------------------------------------ polled

#[derive(Debug, Clone, Serialize, Deserialize)]
enum POp {
    Name(String),
    Title(String),
    Desc(String),
    Group(bool),
    Value(Vec<(String, SItem)>),
    Snap(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PollCase {
    name: String,
    constant: Option<SItem>,
    ops: Vec<POp>,
}
struct Shared(Arc<Mutex<Vec<(String, SItem)>>>);
impl PutsSnapshot for Shared {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        into.push("descriptive", d);
        for (n, i) in self.0.lock().unwrap().iter() {
            into.items.push((n.clone(), i.kind()));
        }
    }
}
fn pcase() -> impl Strategy<Value = PollCase> {
    let op = prop_oneof![
        1 => name().prop_map(POp::Name),
        1 => "[a-z ]{0,5}".prop_map(POp::Title),
        1 => "[a-z ]{0,5}".prop_map(POp::Desc),
        2 => any::<bool>().prop_map(POp::Group),
        3 => vec((name(), sitem()), 0..4).prop_map(POp::Value),
        4 => any::<bool>().prop_map(POp::Snap),
    ];
    (name(), proptest::option::of(sitem()), vec(op, 1..20)).prop_map(|(name, constant, ops)| PollCase { name, constant, ops })
}
fn polled(c: &PollCase, o: &mut Obs) -> Res {
    let shared = Arc::new(Mutex::new(vec![]));
    let mut p = PollingInstrument::new_with_defaults(c.name.clone(), Shared(shared.clone()));
    let mut k = ConstantValue::new(c.name.clone(), c.constant.as_ref().map(|i| i.kind()).unwrap_or(ItemKind::Int(0)));
    let (mut name, mut title, mut desc, mut group) = (c.name.clone(), None::<String>, None::<String>, false);
    let (mut snaps, mut changes) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("op {}", i);
        match op {
            POp::Name(n) => {
                name = n.clone();
                p.set_name(n.clone());
                k.set_name(n.clone());
            }
            POp::Title(n) => {
                title = Some(n.clone());
                p.set_title(n.clone());
                k.set_title(n.clone());
            }
            POp::Desc(n) => {
                desc = Some(n.clone());
                p.set_description(n.clone());
                k.set_description(n.clone());
            }
            POp::Group(b) => {
                group = *b;
                p.set_create_group_with_name(*b);
            }
            POp::Value(v) => *shared.lock().unwrap() = v.clone(),
            POp::Snap(d) => {
                snaps += (changes > 0) as usize;
                let values = Fixed(shared.lock().unwrap().clone());
                part(&what, &p, *d, |l| {
                    if *d {
                        l.describe(&format!("_title_{}", name), &title);
                        l.describe(&format!("_description_{}", name), &desc);
                    }
                    let mut inner = Level::default();
                    inner.push("descriptive", Exp::Bool(*d));
                    for (n, i) in &values.0 {
                        inner.push(n.clone(), Exp::Item(i.kind()));
                    }
                    if group {
                        l.push(name.clone(), Exp::Level(inner));
                    } else {
                        l.0.extend(inner.0);
                    }
                })?;
                part(&what, &k, *d, |l| {
                    if *d {
                        l.describe(&format!("_title_{}", name), &title);
                        l.describe(&format!("_description_{}", name), &desc);
                    }
                    l.push(name.clone(), Exp::Item(c.constant.as_ref().map(|i| i.kind()).unwrap_or(ItemKind::Int(0))));
                })?;
            }
        }
        changes += !matches!(op, POp::Snap(_)) as usize;
        ensure!(p.get_name() == name && k.get_name() == name, "{}: get_name() {:?} and {:?}, expected {:?}", what, p.get_name(), k.get_name(), name);
        ensure!(p.create_group_with_name() == group, "{}: create_group_with_name() {}", what, p.create_group_with_name());
        for (t, d) in [(p.title(), p.description()), (k.title(), k.description())] {
            ensure!(t == title.as_deref() && d == desc.as_deref(), "{}: title() {:?}, description() {:?}, expected {:?}, {:?}", what, t, d, title, desc);
        }
    }
    o.nontrivial_if(snaps > 0 && changes > 0);
    Ok(())
}

// ------------------------------------------------------------ text

fn displays(items: &Vec<(String, Item)>, o: &mut Obs) -> Res {
    let s = snapshot_of(items);
    for (n, i) in &s.items {
        let t = i.to_string();
        let ok = match i {
            ItemKind::Text(v) => t == *v,
            ItemKind::Boolean(v) => t.parse() == Ok(*v),
            ItemKind::UInt(v) => t.parse() == Ok(*v),
            ItemKind::Int(v) => t.parse() == Ok(*v),
            ItemKind::Float(v) if v.is_nan() => t.parse::<f64>().is_ok_and(|x| x.is_nan()),
            ItemKind::Float(v) => t.parse() == Ok(*v),
            ItemKind::Snapshot(v) => t.contains(&v.items.len().to_string()),
        };
        ensure!(ok, "{:?} is displayed as {:?}", i, t);
        if let metrix::snapshot::FindItem::Found(x) = s.find_with_separator(n, char::MAX) {
            let f = s.find_with_separator(n, char::MAX);
            ensure!(f.to_string() == x.to_string(), "found {:?} is displayed as {:?}", x, f.to_string());
            ensure!(f.opt() == Some(x) || x.to_string() == "NaN" || matches!(x, ItemKind::Snapshot(_)), "opt() of {:?}", x);
            let d = f.to_duration_nanoseconds();
            match d.opt() {
                Some(v) => ensure!(d.to_string() == format!("{:?}", v), "{:?} is displayed as {}", v, d),
                None => ensure!(matches!(d, metrix::snapshot::FindDurationItem::NotADuration), "not a duration: {:?}", d),
            }
        }
    }
    let f = s.find_with_separator("no such name anywhere", char::MAX);
    ensure!(f.opt().is_none() && f.to_duration_seconds().opt().is_none(), "found {:?}", f);
    ensure!(f.to_string().contains("not found") && f.to_duration_seconds().to_string().contains("not found"), "missing items are displayed as {:?}", f.to_string());
    o.nontrivial_if(items.len() > 1);
    Ok(())
}

// ------------------------------------------------------------ drivers

fn drivers(c: &(DCfg, u8, bool), o: &mut Obs) -> Res {
    let (cfg, clones, d) = c;
    let _clean = super::drv::Cleanup::new();
    vclock::global_enter(vclock::START_NS, true);
    let first = cfg.build();
    let mut handles = vec![first];
    for i in 0..*clones {
        let h = handles[i as usize / 2].clone();
        handles.push(h);
    }
    let s = handles[handles.len() / 2].snapshot(*d).map_err(|_| "a driver refuses a snapshot".to_string())?;
    handles.truncate(handles.len().max(2) - 1);
    for h in &handles {
        ensure!(h.name() == cfg.name.as_deref(), "name() is {:?}, expected {:?}", h.name(), cfg.name);
        ensure!(
            h.title() == cfg.title.as_deref() && h.description() == cfg.desc.as_deref(),
            "title() is {:?}, description() {:?}, expected {:?} and {:?}",
            h.title(),
            h.description(),
            cfg.title,
            cfg.desc
        );
    }
    let mut want = Level::default();
    let mut l = Level::default();
    if *d {
        l.describe("_title", &cfg.title);
        l.describe("_description", &cfg.desc);
    }
    if cfg.metrics() {
        l.push("_metrix", Exp::Any);
    }
    match &cfg.name {
        Some(n) => want.push(n.clone(), Exp::Level(l)),
        None => want.0.extend(l.0),
    }
    compare("an empty driver", &s, &want)?;
    o.nontrivial_if(cfg.name.is_some() || cfg.title.is_some() || cfg.desc.is_some());
    super::drv::no_foreign_panic()
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "drivers",
            "drivers built in every way, up to six handles cloned from one another: name, title and description of each handle and in the snapshot; non-trivial: at least one of them set",
            Clock::Global,
            1_000,
            10_000,
            || (super::drv::dcfg(), 0u8..6, any::<bool>()),
            drivers,
        ),
        facet(
            "live",
            "a panel, cockpit, processor or mount with up to 30 operations: observations, runs, clock steps, snapshots, looks at every accessor, and changes of names, texts, limits and parts in between; non-trivial: an instrument updated after a change",
            Clock::Local,
            12_000,
            240_000,
            lcase,
            live,
        ),
        facet(
            "instruments",
            "one instrument of any kind with up to 40 updates, clock steps, snapshots and changes of its settings, all accessors read after each; non-trivial: an update after a change",
            Clock::Local,
            90_000,
            1_800_000,
            ccase,
            instruments,
        ),
        facet(
            "polled",
            "a polling instrument and a constant with up to 20 changes of names, texts, grouping and the polled values, and snapshots; non-trivial: a snapshot after a change",
            Clock::Local,
            60_000,
            600_000,
            pcase,
            polled,
        ),
        facet(
            "displays",
            "generated snapshots; scalars read back from their text, found items shown like the items; non-trivial: at least two items",
            Clock::Local,
            30_000,
            300_000,
            || tree(name().boxed(), "\\PC{0,8}".boxed()),
            displays,
        ),
    ]
}
