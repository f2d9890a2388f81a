//! C28 memory follows configuration and backlog, not history.
use super::drv::*;
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{alloc, ensure, vclock};
use futures::FutureExt;
use metrix::processor::*;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// rounds before the first look, of each look, and between the looks
const WARM: u64 = 120;
const LOOK: u64 = 20;
const LONG: u64 = 260;

/// Runs rounds; the memory held afterwards must not keep growing. Between the
/// looks anything that grows like a `Vec` has doubled its size.
fn flat(slack: i64, rounds: (u64, u64), mut round: impl FnMut(u64) -> Res, held: impl Fn() -> i64) -> Result<(), String> {
    let (warm, long) = rounds;
    let mut most = i64::MIN;
    let mut least = i64::MAX;
    for k in 0..warm + LOOK + long + LOOK {
        round(k)?;
        let n = held();
        if k >= warm && k < warm + LOOK {
            most = most.max(n);
        }
        if k >= warm + LOOK + long {
            least = least.min(n);
        }
    }
    ensure!(least <= most + slack, "{} rounds needed up to {} bytes, {} more of them at least {}", warm + LOOK, most, long, least);
    Ok(())
}

/// the same kind with another value
fn vary(k: Kind, by: u64) -> Kind {
    match k {
        Kind::Value(Val::U(n)) => Kind::Value(Val::U(n.wrapping_add(by))),
        Kind::Value(Val::I(n)) => Kind::Value(Val::I(n.wrapping_add(by as i64))),
        Kind::Value(Val::D(n, u)) => Kind::Value(Val::D(n.wrapping_add(by), u)),
        Kind::Value(Val::Chg(n)) => Kind::Value(Val::Chg(n.wrapping_add(by as i64))),
        Kind::Many(n) => Kind::Many(n.wrapping_add(by)),
        k => k,
    }
}

fn no_histogram() -> BoxedStrategy<IKind> {
    all_kinds().prop_filter("histograms on their own", |k| !matches!(k, IKind::Histogram { .. })).boxed()
}
fn g() -> G {
    G { limits: 1, kinds: no_histogram, attached: false, spies: false, tame: false, ops: 20, structural: 0 }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Rounds {
    root: ProcSpec,
    round: Vec<HOp>,
}
fn op() -> BoxedStrategy<HOp> {
    prop_oneof![
        8 => (any::<u8>(), label(), kind(), prop_oneof![3 => Just(0i64), 1 => -10_000_000_000i64..40_000_000_000])
            .prop_map(|(tx, label, kind, age)| HOp::Send { tx, label, kind, age }),
        3 => (any::<u8>(), 1u8..40, label(), kind()).prop_map(|(tx, n, label, kind)| HOp::Burst { tx, n, label, kind }),
        3 => (limit(), strat()).prop_map(|(m, s)| HOp::Process(m, s)),
        3 => (0u64..100 * SEC).prop_map(HOp::Advance),
        3 => any::<bool>().prop_map(HOp::Snap),
    ]
    .boxed()
}
fn rounds() -> impl Strategy<Value = Rounds> {
    let root = prop_oneof![tele(g(), 1).prop_map(ProcSpec::Tele), mount(g(), 1).prop_map(ProcSpec::Mount)];
    (root, vec(op(), 1..20)).prop_map(|(root, round)| Rounds { root, round })
}
fn forget_logs(env: &mut Env) {
    for r in &env.recs {
        r.log.lock().unwrap().clear();
    }
}
fn history(c: &Rounds, o: &mut Obs) -> Res {
    let mut env = Env::default();
    let (mut real, _model) = build_proc(&c.root, &mut env);
    let (mut sent, mut reached) = (0, 0);
    flat(
        0,
        (WARM, LONG),
        |k| {
            for op in &c.round {
                let tx = |n: u8| (!env.txs.is_empty()).then(|| &env.txs[n as usize % env.txs.len()].0);
                let now = vclock::now_ns() as i128;
                match op {
                    HOp::Send { tx: t, label, kind, age } => {
                        if let Some(t) = tx(*t) {
                            t.transmit(vary(*kind, k).obs(*label, at(now - *age as i128)));
                            sent += 1;
                        }
                    }
                    HOp::Burst { tx: t, n, label, kind } => {
                        for i in 0..*n {
                            if let Some(t) = tx(*t) {
                                t.transmit(vary(*kind, k * 40 + i as u64).obs(label.wrapping_add(i % 4), at(now)));
                                sent += 1;
                            }
                        }
                    }
                    HOp::Process(n, s) => reached += real.process(*n, s.get()).instruments_updated,
                    HOp::Advance(n) => vclock::advance(*n),
                    HOp::Snap(d) => drop(snap(&*real, *d)),
                    _ => {}
                }
            }
            reached += real.process(usize::MAX, ProcessingStrategy::ProcessAll).instruments_updated;
            forget_logs(&mut env);
            Ok(())
        },
        alloc::live,
    )?;
    o.nontrivial_if(sent > 0 && reached > 0);
    o.label_if(reached > 10_000, "more than 10 000 updates");
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Backlog {
    root: ProcSpec,
    n: u16,
    /// the observations to send, again and again
    obs: Vec<(u8, u8, Kind, i64)>,
    max: usize,
    strat: Strat,
    /// structure changes that change nothing among the observations
    noise: u8,
    look: bool,
}
fn backlog() -> impl Strategy<Value = Backlog> {
    let root = prop_oneof![tele(g(), 1).prop_map(ProcSpec::Tele), mount(g(), 0).prop_map(ProcSpec::Mount)];
    let o = (any::<u8>(), label(), kind(), prop_oneof![3 => Just(0i64), 1 => -10_000_000_000i64..40_000_000_000]);
    let max = prop_oneof![2 => Just(usize::MAX), 2 => Just(1_000usize), 1 => 300usize..5_000];
    (root, prop_oneof![3 => 1_000u16..4_000, 1 => 4_000u16..12_000], vec(o, 1..6), max, strat(), 0u8..4, any::<bool>())
        .prop_map(|(root, n, obs, max, strat, noise, look)| Backlog { root, n, obs, max, strat, noise, look })
}
/// The same observations worked off one by one and from a long queue: the
/// second leaves no more behind than the first.
fn backlogs(c: &Backlog, o: &mut Obs) -> Res {
    let mut env = Env::default();
    let (mut real, _model) = build_proc(&c.root, &mut env);
    let mut held = [0i64; 3];
    let mut reached = 0;
    let mut high = 0;
    for (turn, one_by_one) in [(0, true), (1, false), (2, false)] {
        let now = vclock::now_ns() as i128;
        for i in 0..c.n as usize {
            let (t, label, k, age) = &c.obs[i % c.obs.len()];
            if !env.txs.is_empty() {
                let t = &env.txs[(*t as usize + i) % env.txs.len()].0;
                t.transmit(k.obs(*label, at(now - *age as i128)));
                if c.noise > 0 && i % (300 * c.noise as usize) == 0 {
                    t.remove_cockpit("there is none of this name");
                    t.remove_panel_from_cockpit("nor of this", "and this");
                }
            }
            if one_by_one {
                for r in &env.recs {
                    r.log.lock().unwrap().clear();
                }
                reached += real.process(c.max, c.strat.get()).instruments_updated;
            }
        }
        high = high.max(alloc::live());
        for _ in 0..60 {
            reached += real.process(c.max, c.strat.get()).instruments_updated;
            if c.look {
                drop(snap(&*real, false));
            }
        }
        for r in &env.recs {
            *r.log.lock().unwrap() = vec![];
        }
        held[turn] = alloc::live();
    }
    for n in &held[1..] {
        ensure!(*n <= held[0] + 16_384, "{} bytes are held after {} observations worked off one by one, {} after as many from a queue", held[0], c.n, n);
    }
    o.nontrivial_if(reached > 0 && high > held[0] + 16_384);
    o.label_if(c.n > 4_000, "more than 4 000 waiting");
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Filling {
    spec: InstSpec,
    /// of the updates, one after the other
    kinds: Vec<(Kind, u64)>,
    look: u8,
}
fn filling() -> impl Strategy<Value = Filling> {
    let step = prop_oneof![3 => Just(0u64), 2 => 0u64..(50 * MS), 1 => 0u64..(10 * SEC)];
    (spec(prop_oneof![3 => histogram_kind().boxed(), 1 => any_kind().boxed()]), vec((kind(), step), 1..8), any::<u8>())
        .prop_map(|(spec, kinds, look)| Filling { spec, kinds, look })
}
/// A histogram keeps a sample of 1 028 values, in a tree whose nodes are more or less full.
fn samples(c: &Filling, o: &mut Obs) -> Res {
    let histogram = matches!(c.spec.kind, IKind::Histogram { .. });
    let (mut real, _) = c.spec.build();
    let mut n = 0;
    flat(
        if histogram { 48 << 10 } else { 0 },
        (WARM, 2 * LONG),
        |k| {
            for i in 0..48usize {
                let (kind, step) = c.kinds[i % c.kinds.len()];
                n += real.update(&vary(kind, k * 48 + i as u64).update(at(vclock::now_ns() as i128)));
                vclock::advance(step);
                if k % 16 == 0 && i * 11 < c.look as usize {
                    drop(real.snap(i % 2 == 0));
                }
            }
            Ok(())
        },
        alloc::live,
    )?;
    o.nontrivial_if(n > 5_000);
    o.label_if(histogram, "histogram");
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum XOp {
    Cockpit(u8, CockpitSpec),
    NoCockpit(u8),
    Panel(u8, u8, PanelSpec),
    NoPanel(u8, u8),
    Send(u8, u8, Kind),
    Process(usize),
    Snap(bool),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Turnover {
    root: TeleSpec,
    round: Vec<XOp>,
}
fn turnover() -> impl Strategy<Value = Turnover> {
    let op = prop_oneof![
        4 => (0u8..4, cockpit(g(), 1)).prop_map(|(n, c)| XOp::Cockpit(n, c)),
        1 => (0u8..4).prop_map(XOp::NoCockpit),
        4 => (0u8..4, 0u8..4, panel(g(), 1)).prop_map(|(c, p, s)| XOp::Panel(c, p, s)),
        2 => (0u8..4, 0u8..4).prop_map(|(c, p)| XOp::NoPanel(c, p)),
        4 => (1u8..20, label(), kind()).prop_map(|(n, l, k)| XOp::Send(n, l, k)),
        2 => limit().prop_map(XOp::Process),
        1 => any::<bool>().prop_map(XOp::Snap),
    ];
    (tele(g(), 1), vec(op, 1..16)).prop_map(|(root, round)| Turnover { root: TeleSpec { cap: None, ..root }, round })
}
fn turnovers(c: &Turnover, o: &mut Obs) -> Res {
    let mut env = Env::default();
    let (mut real, _) = build_proc(&ProcSpec::Tele(c.root.clone()), &mut env);
    let tx = env.txs[0].0.clone();
    let mut reached = 0;
    let cname = |n: u8| format!("cockpit {}", n);
    let pname = |n: u8| format!("panel {}", n);
    flat(
        0,
        (WARM / 2, LONG / 2),
        |k| {
            let mut passing = Env::default();
            for op in &c.round {
                match op {
                    XOp::Cockpit(n, s) => {
                        let mut s = s.clone();
                        s.head.name = Some(cname(*n));
                        tx.add_cockpit(build_cockpit(&s, &mut passing).0);
                    }
                    XOp::NoCockpit(n) => drop(tx.remove_cockpit(cname(*n))),
                    XOp::Panel(c, n, s) => {
                        let mut s = s.clone();
                        s.head.name = Some(pname(*n));
                        tx.add_panel_to_cockpit(cname(*c), build_panel(&s, &mut passing).0);
                    }
                    XOp::NoPanel(c, n) => drop(tx.remove_panel_from_cockpit(cname(*c), pname(*n))),
                    XOp::Send(n, l, kind) => {
                        for i in 0..*n {
                            tx.transmit(vary(*kind, k * 40 + i as u64).obs(l.wrapping_add(i), at(vclock::now_ns() as i128)));
                        }
                    }
                    XOp::Process(n) => reached += real.process(*n, ProcessingStrategy::ProcessAll).instruments_updated,
                    XOp::Snap(d) => drop(snap(&*real, *d)),
                }
            }
            for n in 0..4 {
                tx.remove_cockpit(cname(n));
            }
            reached += real.process(usize::MAX, ProcessingStrategy::ProcessAll).instruments_updated;
            forget_logs(&mut env);
            Ok(())
        },
        alloc::live,
    )?;
    let cockpits = c.round.iter().filter(|o| matches!(o, XOp::Cockpit(..))).count();
    let panels = c.round.iter().filter(|o| matches!(o, XOp::Panel(..))).count();
    o.nontrivial_if(cockpits > 0 && panels > 0 && reached > 0);
    Ok(())
}

fn whole() -> impl Strategy<Value = HCase> {
    let g = G { limits: 1, kinds: all_kinds, attached: true, spies: true, tame: false, ops: 25, structural: 4 };
    hcase(g, prop_oneof![3 => mount(g, 2).prop_map(ProcSpec::Mount), 1 => tele(g, 2).prop_map(ProcSpec::Tele)])
}
/// `unfinished`: messages that were never processed
fn given_back(c: &HCase, o: &mut Obs) -> Res {
    let once = || -> Result<(i64, usize), String> {
        let mut s = System::new(&c.root);
        for (i, op) in c.ops.iter().enumerate() {
            s.step(i, op)?;
        }
        Ok((alloc::live(), s.env.took))
    };
    // what a thread allocates once and for all
    once()?;
    let before = alloc::live();
    let (during, took) = once()?;
    let after = alloc::live();
    ensure!(after == before, "{} bytes were not given back of {}", after - before, during - before);
    o.nontrivial_if(took > 0);
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum DOp {
    Send(u8, u8, u8, Kind),
    Step(u8),
    Snap(bool),
    /// asked for by a thread that waits for it
    Sync(bool),
    Abandon,
    Pause,
    Resume,
    Strat(Strat),
    Advance(u64),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct DCase {
    cfg: DCfg,
    procs: Vec<ProcSpec>,
    round: Vec<DOp>,
}
fn driven(metrics: bool) -> impl Strategy<Value = DCase> {
    let op = prop_oneof![
        6 => (any::<u8>(), 1u8..30, label(), kind()).prop_map(|(t, n, l, k)| DOp::Send(t, n, l, k)),
        5 => (1u8..4).prop_map(DOp::Step),
        3 => any::<bool>().prop_map(DOp::Snap),
        1 => any::<bool>().prop_map(DOp::Sync),
        1 => Just(DOp::Abandon),
        1 => Just(DOp::Pause),
        1 => Just(DOp::Resume),
        1 => some_strat().prop_map(DOp::Strat),
        2 => (0u64..5 * SEC).prop_map(DOp::Advance),
    ];
    let p = prop_oneof![3 => tele(g(), 1).prop_map(ProcSpec::Tele), 1 => mount(g(), 1).prop_map(ProcSpec::Mount)];
    (dcfg(), vec(p, 0..3), vec(op, 1..8)).prop_map(move |(cfg, procs, round)| {
        // in each round there is a collection and a snapshot
        let round: Vec<DOp> = if metrics { round.into_iter().filter(|o| !matches!(o, DOp::Advance(_))).take(2).chain([DOp::Resume, DOp::Snap(false)]).collect() } else { round };
        DCase { cfg: DCfg { metrics: if metrics { None } else { Some(false) }, ..cfg }, procs, round }
    })
}
fn drive(c: &DCase, o: &mut Obs, rounds: (u64, u64), slack: i64) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    alloc::count_all(true);
    let mut left = vec![];
    let mut sent = 0;
    for _ in 0..2 {
        vclock::gate_close();
        {
            let mut env = Env::default();
            let mut d = c.cfg.build();
            rest(clean.0)?;
            for p in &c.procs {
                put_proc(&mut d, p, &mut env);
            }
            let step = || -> Res {
                vclock::gate_step();
                rest(clean.0)
            };
            for _ in 0..3 + c.procs.len() {
                step()?;
            }
            let mut round = |k: u64| -> Res {
                let mut paused = false;
                for op in c.round.iter().chain([&DOp::Resume, &DOp::Strat(Strat::All)]) {
                    match op {
                        DOp::Send(t, n, l, kind) => {
                            if env.txs.is_empty() {
                                continue;
                            }
                            let t = &env.txs[*t as usize % env.txs.len()].0;
                            for i in 0..*n {
                                t.transmit(vary(*kind, k * 40 + i as u64).obs(l.wrapping_add(i), at(vclock::now_ns() as i128)));
                                sent += 1;
                            }
                        }
                        DOp::Step(n) => {
                            for _ in 0..*n {
                                step()?;
                            }
                        }
                        DOp::Snap(desc) => {
                            let mut f = d.snapshot_async(*desc).boxed();
                            let mut n = 0;
                            while (&mut f).now_or_never().is_none() {
                                step()?;
                                n += 1;
                                ensure!(n < 1000, "a snapshot is not answered");
                            }
                        }
                        DOp::Sync(desc) => {
                            let done = &std::sync::atomic::AtomicBool::new(false);
                            let d = &d;
                            std::thread::scope(|s| -> Res {
                            let h = s.spawn(move || {
                                vclock::mark_harness_thread();
                                let ok = d.snapshot(*desc).is_ok();
                                done.store(true, std::sync::atomic::Ordering::SeqCst);
                                ok
                            });
                            let since = vclock::real_ns();
                            let mut late = Ok(());
                            while !done.load(std::sync::atomic::Ordering::SeqCst) && late.is_ok() {
                                late = step();
                                vclock::real_sleep(std::time::Duration::from_micros(20));
                                if vclock::real_ns() - since > 60_000_000_000 {
                                    vclock::gate_open();
                                    late = Err("INCONCLUSIVE a thread waits for its snapshot for a minute".into());
                                }
                            }
                            let ok = h.join().unwrap_or(false);
                            late?;
                            ensure!(ok, "a snapshot is refused");
                            Ok(())
                            })?
                        }
                        DOp::Abandon => drop(d.snapshot_async(true)),
                        DOp::Pause => {
                            d.pause();
                            paused = true;
                        }
                        DOp::Resume => {
                            if paused {
                                d.resume();
                                paused = false;
                            }
                        }
                        DOp::Strat(s) => d.change_processing_stragtegy(s.get()),
                        DOp::Advance(n) => vclock::advance(*n),
                    }
                }
                // to the end of all requests and queues
                let mut f = d.snapshot_async(false).boxed();
                let mut n = 0;
                while (&mut f).now_or_never().is_none() {
                    step()?;
                    n += 1;
                    ensure!(n < 1000, "a snapshot is not answered");
                }
                drop(f);
                n = 0;
                while env.txs.iter().any(|t| t.0.queue_size() > 0) {
                    step()?;
                    n += 1;
                    ensure!(n < 1000, "queues are not emptied");
                }
                forget_logs(&mut env);
                Ok(())
            };
            if left.is_empty() {
                for k in 0..5 {
                    round(k)?;
                }
            } else {
                flat(slack, rounds, round, alloc::live_all)?;
            }
        }
        vclock::gate_open();
        ensure!(wait_ended(clean.0, 20_000), "the driver does not end");
        left.push(alloc::live_all());
    }
    alloc::count_all(false);
    no_foreign_panic()?;
    ensure!(left[1] - left[0] < 1024, "{} bytes were not given back", left[1] - left[0]);
    // with its own metrics each snapshot and collection counts
    o.nontrivial_if(sent > 1000 || slack > 0);
    Ok(())
}
fn driver(c: &DCase, o: &mut Obs) -> Res {
    drive(c, o, (40, 90), 0)
}
fn driver_metrics(c: &DCase, o: &mut Obs) -> Res {
    drive(c, o, (1_100, 2_400), 24 << 10)
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "history",
            "generated hierarchies fed with 420 rounds of a generated round of observations (with ever new values), runs, silences and snapshots, the bytes held at the end of each round counted; 260 further rounds need no more than the first 140; non-trivial: instruments updated",
            Clock::Local,
            4_000,
            80_000,
            rounds,
            history,
        ),
        facet(
            "backlog",
            "generated hierarchies with up to 12 000 observations waiting, worked off in few runs; what is held afterwards is what is held after the same observations worked off one by one; non-trivial: an instrument updated and a queue that needed memory",
            Clock::Local,
            4_000,
            40_000,
            backlog,
            backlogs,
        ),
        facet(
            "samples",
            "single instruments, histograms above all, fed with 32 000 generated values; what they hold stays as it is once a sample is full; non-trivial: more than 5 000 of the values were taken",
            Clock::Local,
            2_000,
            20_000,
            filling,
            samples,
        ),
        facet(
            "turnover",
            "cockpits and panels added, used and removed again through a transmitter, over and over; no round leaves anything behind; non-trivial: cockpits and panels added, instruments updated",
            Clock::Local,
            4_000,
            40_000,
            turnover,
            turnovers,
        ),
        facet(
            "release",
            "generated hierarchies and histories with structure changes and attached mounts, dropped at any point (also with messages queued); every byte is given back; non-trivial: an instrument was updated",
            Clock::Local,
            24_000,
            300_000,
            whole,
            given_back,
        ),
        facet(
            "driver",
            "the same with a running driver stepped by the harness, with snapshots asked for and not waited for, pauses and changes of the strategy, all threads counted; also that its end gives everything back; non-trivial: more than 1 000 observations",
            Clock::Global,
            300,
            4_000,
            || driven(false),
            driver,
        ),
        facet(
            "driver-metrics",
            "the same with the driver's own metrics, whose samples are filled by 1 100 collections and snapshots first; non-trivial: all",
            Clock::Global,
            10,
            200,
            || driven(true),
            driver_metrics,
        ),
    ]
}
