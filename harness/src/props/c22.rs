//! C22 nothing a caller can say makes the library panic or hang. Only panics,
//! hangs and refused snapshots count here; what is shown is judged elsewhere.
use super::drv::*;
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use metrix::processor::*;
use metrix::snapshot::{ItemKind, JsonConfig, Snapshot};
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ extremes

/// When something was observed, seen from the current time.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum When {
    Now,
    Ago(u64),
    Ahead(u64),
    /// the earliest instant there is, and so much later
    First(u64),
    /// the latest instant there is, and so much earlier
    Last(u64),
    /// the same instant as before
    Again,
}
fn when() -> impl Strategy<Value = When> {
    prop_oneof![
        6 => Just(When::Now),
        3 => gap().prop_map(When::Ago),
        3 => gap().prop_map(When::Ahead),
        1 => any::<u64>().prop_map(When::Ago),
        1 => any::<u64>().prop_map(When::Ahead),
        1 => prop_oneof![Just(0u64), gap()].prop_map(When::First),
        1 => prop_oneof![Just(0u64), gap()].prop_map(When::Last),
        1 => Just(When::Again),
    ]
}
fn edge(up: bool) -> Instant {
    let mut i = real_now();
    let mut step = Duration::from_secs(1 << 62);
    loop {
        let next = if up { i.checked_add(step) } else { i.checked_sub(step) };
        match next {
            Some(n) => i = n,
            None if step > Duration::from_nanos(1) => step /= 2,
            None => return i,
        }
    }
}
struct Edges {
    first: Instant,
    last: Instant,
    before: Instant,
}
impl Edges {
    fn new() -> Edges {
        Edges { first: edge(false), last: edge(true), before: real_now() }
    }
    fn get(&mut self, w: When) -> Instant {
        let now = real_now();
        let d = Duration::from_nanos;
        self.before = match w {
            When::Now => now,
            When::Ago(n) => now.checked_sub(d(n)).unwrap_or(self.first),
            When::Ahead(n) => now.checked_add(d(n)).unwrap_or(self.last),
            When::First(n) => self.first + d(n),
            When::Last(n) => self.last - d(n),
            When::Again => self.before,
        };
        self.before
    }
}
/// How far the clock moves. The whole history stays within some 400 years, but
/// where there are meters, which work through every five seconds of silence,
/// within days or a year or two.
fn leap() -> impl Strategy<Value = u64> {
    const YEAR: u64 = 365 * 86_400 * SEC;
    prop_oneof![
        6 => step(),
        4 => gap(),
        2 => (0u64..40).prop_map(|d| d * 86_400 * SEC),
        2 => 0u64..(3 * YEAR),
        1 => (0u64..30).prop_map(|y| y * YEAR),
    ]
}
struct Clocked {
    gone: u64,
    max: u64,
}
impl Clocked {
    fn new(days: u32) -> Clocked {
        Clocked { gone: 0, max: (days as u64 * 86_400).max(3_600) * SEC }
    }
    fn advance(&mut self, ns: u64) {
        let ns = ns.min(self.max - self.gone);
        self.gone += ns;
        vclock::advance(ns);
    }
}
const CENTURIES: u32 = 400 * 365;
fn days() -> BoxedStrategy<u32> {
    prop_oneof![200 => Just(1u32), 20 => Just(40u32), 1 => Just(700u32)].boxed()
}
fn wild_dur() -> impl Strategy<Value = Dur> {
    prop_oneof![
        3 => dur(),
        2 => gap().prop_map(|g| Dur(Some(g))),
        1 => any::<u64>().prop_map(|g| Dur(Some(g))),
        1 => prop_oneof![Just(Dur(Some(u64::MAX))), Just(Dur(Some(i64::MAX as u64))), Just(Dur(None)), Just(Dur(Some(0)))],
    ]
}
fn wild_rates() -> impl Strategy<Value = Rates> {
    (any::<bool>(), any::<bool>(), any::<bool>(), proptest::option::of(any_f64())).prop_map(|(one, five, fifteen, cutoff)| Rates { one, five, fifteen, cutoff })
}
fn wild_kind() -> BoxedStrategy<IKind> {
    prop_oneof![
        4 => no_meter(),
        1 => wild_rates().prop_map(IKind::Meter),
        1 => (wild_rates(), unit()).prop_map(|(r, u)| IKind::ValueMeter(r, u)),
    ]
    .boxed()
}
fn no_meter() -> BoxedStrategy<IKind> {
    let wild = wild_dur;
    prop_oneof![
        1 => Just(IKind::Counter),
        3 => (proptest::option::of(prop_oneof![4 => 0usize..6, 2 => 6usize..70, 1 => 70usize..4_000, 1 => Just(86_400usize)]), unit(), any::<bool>(), proptest::option::of(any_i64()), any::<bool>())
            .prop_map(|(track, unit, group, init, init_first)| IKind::Gauge { track, unit, group, init, init_first }),
        3 => (unit(), proptest::option::of(wild()), any::<bool>(), any::<bool>()).prop_map(|(unit, limit, reset, show)| IKind::Histogram { unit, limit, reset, show }),
        2 => (proptest::option::of(wild()), proptest::option::of(sitem())).prop_map(|(reset_after, reset_value)| IKind::Display { reset_after, reset_value }),
        1 => any::<bool>().prop_map(|zero| IKind::LastOcc { zero }),
        2 => (proptest::option::of(wild()), any::<bool>(), alt()).prop_map(|(off, invert, alt)| IKind::Staircase { off, invert, alt }),
        2 => (proptest::option::of(wild()), any::<bool>(), alt()).prop_map(|(within, invert, alt)| IKind::Occ { within, invert, alt }),
        2 => (proptest::option::of(wild()), any::<bool>(), alt()).prop_map(|(within, invert, alt)| IKind::NonOcc { within, invert, alt }),
        1 => (proptest::option::of(any::<bool>()), alt()).prop_map(|(init, alt)| IKind::Flag { init, alt }),
    ]
    .boxed()
}
fn text_of_any_kind() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => name(),
        2 => "\\PC{0,12}",
        1 => any::<String>(),
        1 => prop_oneof![Just("\0"), Just("\"\\/\u{2028}"), Just("////"), Just("\u{10ffff}"), Just("__proto__")].prop_map(String::from),
        1 => (1usize..5_000).prop_map(|n| "x".repeat(n)),
    ]
}

/// Everything that can be done with a snapshot.
fn use_snapshot(s: &Snapshot, o: &mut Obs) -> Res {
    let mut paths = vec![];
    fn walk(s: &Snapshot, at: String, depth: usize, paths: &mut Vec<String>, nan: &mut bool) {
        for (n, i) in &s.items {
            let p = format!("{}/{}", at, n);
            if let ItemKind::Snapshot(s) = i {
                walk(s, p.clone(), depth + 1, paths, nan);
            }
            if let ItemKind::Float(f) = i {
                *nan |= !f.is_finite();
            }
            if paths.len() < 40 {
                paths.push(p);
            }
        }
    }
    let mut nan = false;
    walk(s, String::new(), 0, &mut paths, &mut nan);
    o.label_if(nan, "a float that is not finite");
    paths.extend(["", "/", "//", "a/b/c/d", "\u{10ffff}/"].map(String::from));
    for p in &paths {
        let f = s.find(p);
        let _ = (f.to_duration_nanoseconds(), f.to_duration_microseconds(), f.to_duration_milliseconds(), f.to_duration_seconds());
        let _ = format!("{:?} {:?}", f, f.opt());
        let _ = s.find_with_separator(p, 'x');
    }
    for (indent, ints) in [(None, false), (Some(0), true), (Some(3), false)] {
        let cfg = JsonConfig { pretty: indent, make_booleans_ints: ints };
        let j = s.to_json(&cfg);
        ensure!(!j.is_empty(), "empty JSON");
    }
    let _ = s.to_default_json();
    Ok(())
}

// ------------------------------------------------------------ instruments

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum XOp {
    Update(Kind, When),
    Leap(u64),
    Snap(bool),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct XCase {
    /// time since boot
    start: u64,
    tick: u64,
    days: u32,
    spec: InstSpec,
    ops: Vec<XOp>,
}
fn xcase() -> impl Strategy<Value = XCase> {
    let op = prop_oneof![
        6 => (kind(), when()).prop_map(|(k, w)| XOp::Update(k, w)),
        3 => leap().prop_map(XOp::Leap),
        2 => any::<bool>().prop_map(XOp::Snap),
    ];
    let sp = (spec(wild_kind()), text_of_any_kind()).prop_map(|(s, name)| InstSpec { name, ..s });
    (start(), prop_oneof![3 => Just(0u64), 1 => 1u64..3, 1 => 0u64..SEC], days(), sp, vec(op, 1..60)).prop_map(|(start, tick, days, spec, ops)| {
        let days = if matches!(spec.kind, IKind::Meter(_) | IKind::ValueMeter(..)) { days } else { CENTURIES };
        XCase { start, tick, days, spec, ops }
    })
}
/// also right after the machine came up
fn start() -> impl Strategy<Value = u64> {
    prop_oneof![Just(vclock::START_NS), 1u64..5, 1u64..(100 * SEC), Just(400 * 86_400 * SEC)]
}
fn instruments(c: &XCase, o: &mut Obs) -> Res {
    vclock::tls_enter(c.start);
    vclock::set_tick(c.tick);
    let mut e = Edges::new();
    let mut clock = Clocked::new(c.days);
    let (mut r, _) = c.spec.build();
    let mut updates = 0;
    let mut odd = false;
    for op in &c.ops {
        match op {
            XOp::Update(k, w) => {
                odd |= !matches!(w, When::Now | When::Again);
                r.update(&k.update(e.get(*w)));
                updates += 1;
            }
            XOp::Leap(n) => clock.advance(*n),
            XOp::Snap(d) => use_snapshot(&r.snap(*d), o)?,
        }
    }
    use_snapshot(&r.snap(true), o)?;
    clock.advance(u64::MAX);
    use_snapshot(&r.snap(false), o)?;
    vclock::set_tick(0);
    o.nontrivial_if(updates > 1 && odd);
    o.label(match c.spec.kind {
        IKind::Counter => "counter",
        IKind::Gauge { track: None, .. } => "gauge",
        IKind::Gauge { .. } => "tracking gauge",
        IKind::Meter(_) => "meter",
        IKind::ValueMeter(..) => "value meter",
        IKind::Histogram { .. } => "histogram",
        IKind::Display { .. } | IKind::LastOcc { .. } => "display",
        _ => "switch",
    });
    o.label_if(clock.gone > 86_400 * SEC * 365, "years");
    Ok(())
}

// ------------------------------------------------------------ hierarchies

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum YOp {
    Send(u8, u8, Kind, When),
    Burst(u8, u16, u8, Kind, When),
    Msg(u8, SMsg),
    Process(usize, Strat),
    Leap(u64),
    Snap(bool),
    DropTx(u8),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct YCase {
    start: u64,
    tick: u64,
    days: u32,
    root: ProcSpec,
    ops: Vec<YOp>,
}
fn g() -> G {
    G { limits: 6, kinds: wild_kind, attached: false, spies: true, tame: false, ops: 40, structural: 2 }
}
fn wild_strat() -> impl Strategy<Value = Strat> {
    prop_oneof![
        6 => Just(Strat::All),
        1 => Just(Strat::Drop),
        4 => (prop_oneof![any_u64(), gap()], any::<bool>()).prop_map(|(max_age_ns, drop_deltas)| Strat::Older { max_age_ns, drop_deltas }),
        1 => any::<bool>().prop_map(|drop_deltas| Strat::OlderMax { drop_deltas }),
    ]
}
fn yop(g: G) -> impl Strategy<Value = YOp> {
    prop_oneof![
        8 => (any::<u8>(), label(), kind(), when()).prop_map(|(t, l, k, w)| YOp::Send(t, l, k, w)),
        2 => (any::<u8>(), prop_oneof![4 => 0u16..40, 1 => 1_000u16..1_300], label(), kind(), when()).prop_map(|(t, n, l, k, w)| YOp::Burst(t, n, l, k, w)),
        2 => (any::<u8>(), smsg(g)).prop_map(|(t, m)| YOp::Msg(t, m)),
        5 => (limit(), wild_strat()).prop_map(|(m, s)| YOp::Process(m, s)),
        3 => leap().prop_map(YOp::Leap),
        2 => any::<bool>().prop_map(YOp::Snap),
        1 => any::<u8>().prop_map(YOp::DropTx),
    ]
}
fn ycase() -> impl Strategy<Value = YCase> {
    let of = |g: G, days: BoxedStrategy<u32>| {
        (start(), prop_oneof![3 => Just(0u64), 1 => 1u64..3, 1 => 0u64..SEC], days, proc_spec(g, 2), vec(yop(g), 1..40))
            .prop_map(|(start, tick, days, root, ops)| YCase { start, tick, days, root, ops })
    };
    prop_oneof![of(g(), days()), of(G { kinds: no_meter, ..g() }, Just(CENTURIES).boxed())]
}
/// Sends on the real thing only.
fn say(env: &Env, tx: u8, label: u8, k: Kind, t: Instant) -> bool {
    if env.txs.is_empty() {
        return false;
    }
    env.txs[tx as usize % env.txs.len()].0.transmit(k.obs(label, t));
    true
}
fn hierarchies(c: &YCase, o: &mut Obs) -> Res {
    vclock::tls_enter(c.start);
    vclock::set_tick(c.tick);
    let mut e = Edges::new();
    let mut clock = Clocked::new(c.days);
    let mut env = Env::default();
    env.tick();
    let (mut r, _) = build_proc(&c.root, &mut env);
    let (mut processed, mut updated, mut dropped) = (0, 0, 0);
    for op in &c.ops {
        env.tick();
        match op {
            YOp::Send(t, l, k, w) => {
                say(&env, *t, *l, *k, e.get(*w));
            }
            YOp::Burst(t, n, l, k, w) => {
                for i in 0..*n {
                    say(&env, *t, l.wrapping_add(i as u8 % 4), *k, e.get(*w));
                }
            }
            YOp::Msg(t, m) => env.msg(*t, m),
            YOp::Process(max, s) => {
                let out = r.process(*max, s.get());
                processed += out.processed;
                dropped += out.dropped;
                updated += out.instruments_updated;
            }
            YOp::Leap(n) => clock.advance(*n),
            YOp::Snap(d) => use_snapshot(&snap(&*r, *d), o)?,
            YOp::DropTx(t) => {
                if !env.txs.is_empty() {
                    let t = *t as usize % env.txs.len();
                    env.txs.remove(t);
                }
            }
        }
    }
    r.process(usize::MAX, ProcessingStrategy::ProcessAll);
    use_snapshot(&snap(&*r, true), o)?;
    // the senders are gone
    env.txs.clear();
    r.process(usize::MAX, ProcessingStrategy::ProcessAll);
    clock.advance(u64::MAX);
    r.process(1, ProcessingStrategy::DropOlderThan { max_age: Duration::MAX, drop_deltas: true });
    use_snapshot(&snap(&*r, false), o)?;
    vclock::set_tick(0);
    o.nontrivial_if(updated > 1 && processed > 1);
    o.label_if(dropped > 0, "dropped");
    o.label_if(clock.gone > 86_400 * SEC * 365, "years");
    Ok(())
}

// ------------------------------------------------------------ drivers

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum ZOp {
    Y(YOp),
    Put(ProcSpec),
    /// a processor whose runs take so long and claim so much
    Slow(Vec<(u64, u8, u8)>),
    PutSnap(SnapSpec),
    Pause,
    Resume,
    Strategy(Strat),
    Async(bool),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct ZCase {
    days: u32,
    cfg: DCfg,
    items: Vec<ProcSpec>,
    ops: Vec<ZOp>,
}
fn run_time() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => 0u64..(40 * MS),
        1 => Just(10 * MS),
        1 => 0u64..(3 * SEC),
        1 => gap().prop_map(|g| g.min(40 * SEC)),
    ]
}
/// Takes its time, again and again.
struct Slow(Vec<(u64, u8, u8)>, usize);
impl ProcessesTelemetryMessages for Slow {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let (t, processed, dropped) = self.0.get(self.1).copied().unwrap_or((self.0[self.1 % self.0.len()].0.min(50 * MS), 0, 0));
        self.1 += 1;
        vclock::advance(t);
        ProcessingOutcome { processed: processed as usize, dropped: dropped as usize, ..Default::default() }
    }
}
impl PutsSnapshot for Slow {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("slow", self.1 as u64);
    }
}
fn zcase() -> impl Strategy<Value = ZCase> {
    let p = || proc_spec(G { spies: false, ..g() }, 1);
    let op = prop_oneof![
        20 => yop(g()).prop_map(ZOp::Y),
        1 => p().prop_map(ZOp::Put),
        2 => vec((run_time(), prop_oneof![2 => 0u8..3, 1 => 95u8..105], prop_oneof![4 => Just(0u8), 1 => 0u8..3]), 1..8).prop_map(ZOp::Slow),
        1 => snap_spec().prop_map(ZOp::PutSnap),
        1 => Just(ZOp::Pause),
        2 => Just(ZOp::Resume),
        2 => wild_strat().prop_map(ZOp::Strategy),
        2 => any::<bool>().prop_map(ZOp::Async),
    ];
    let cfg = (dcfg(), proptest::option::of(wild_strat()), proptest::option::of(text_of_any_kind())).prop_map(|(c, strat, name)| DCfg { strat, name, ..c });
    (prop_oneof![6 => Just(1u32), 30 => Just(0u32), 1 => Just(40u32)], cfg, vec(p(), 1..3), vec(op, 1..30)).prop_map(|(days, cfg, items, ops)| ZCase { days, cfg, items, ops })
}
fn drivers(c: &ZCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut e = Edges::new();
    let mut clock = Clocked::new(c.days);
    let mut env = Env::default();
    env.tick();
    let mut d = c.cfg.build();
    for p in &c.items {
        put_proc(&mut d, p, &mut env);
    }
    let mut sent = 0;
    let mut paused = false;
    let look = |d: &driver::TelemetryDriver, desc: bool, o: &mut Obs| -> Res {
        let s = d.snapshot(desc).map_err(|_| "a snapshot was refused while a handle exists".to_string())?;
        no_foreign_panic()?;
        use_snapshot(&s, o)
    };
    for op in &c.ops {
        env.tick();
        match op {
            ZOp::Y(YOp::Send(t, l, k, w)) => sent += say(&env, *t, *l, *k, e.get(*w)) as usize,
            ZOp::Y(YOp::Burst(t, n, l, k, w)) => {
                for i in 0..*n {
                    sent += say(&env, *t, l.wrapping_add(i as u8 % 4), *k, e.get(*w)) as usize;
                }
            }
            ZOp::Y(YOp::Msg(t, m)) => env.msg(*t, m),
            ZOp::Y(YOp::Leap(n)) => clock.advance(*n),
            ZOp::Y(YOp::DropTx(t)) => {
                if !env.txs.is_empty() {
                    let t = *t as usize % env.txs.len();
                    env.txs.remove(t);
                }
            }
            ZOp::Y(YOp::Snap(desc)) => look(&d, *desc, o)?,
            ZOp::Y(YOp::Process(..)) => {
                // until all is taken, if it is to be
                let left = || env.txs.iter().map(|t| t.0.queue_size()).sum::<usize>();
                if !paused {
                    wait_until("the queues drain", || left() == 0)?;
                }
            }
            ZOp::Put(p) => {
                put_proc(&mut d, p, &mut env);
            }
            ZOp::Slow(runs) => d.add_processor(Slow(runs.clone(), 0)),
            ZOp::PutSnap(s) => d.add_snapshooter(DynSnap(build_snap(s))),
            ZOp::Pause => {
                d.pause();
                paused = true;
            }
            ZOp::Resume => {
                d.resume();
                paused = false;
            }
            ZOp::Strategy(s) => d.change_processing_stragtegy(s.get()),
            ZOp::Async(desc) => {
                let s = futures::executor::block_on(d.snapshot_async(*desc)).map_err(|_| "a snapshot was refused while a handle exists".to_string())?;
                use_snapshot(&s, o)?;
            }
        }
    }
    d.resume();
    let left = || env.txs.iter().map(|t| t.0.queue_size()).sum::<usize>();
    wait_until("the queues drain", || left() == 0)?;
    look(&d, true, o)?;
    clock.advance(u64::MAX);
    look(&d, false, o)?;
    look(&d, true, o)?;
    drop(d);
    ensure!(wait_ended(clean.0, 20_000), "the driver does not end");
    no_foreign_panic()?;
    o.nontrivial_if(sent > 3);
    o.label_if(clock.gone > 86_400 * SEC * 365, "years");
    o.label_if(clock.gone > 86_400 * SEC * 20, "weeks");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "instruments",
            "one instrument of any configuration (durations up to the greatest, cutoffs of any bits, tracking up to a day), updates of any kind with timestamps from the earliest to the latest instant, clock leaps adding up to 400 years (meters: two years) from right after boot on, every snapshot turned into JSON and searched; non-trivial: two updates, one with a timestamp that is not the current time",
            Clock::Local,
            20_000,
            600_000,
            xcase,
            instruments,
        ),
        facet(
            "hierarchies",
            "mounts, processors, cockpits and panels of such instruments, runs with any limit and strategy; non-trivial: observations processed that updated instruments",
            Clock::Local,
            20_000,
            500_000,
            ycase,
            hierarchies,
        ),
        facet(
            "drivers",
            "the same on a running driver that has to keep answering; non-trivial: more than three observations sent",
            Clock::Global,
            1_000,
            20_000,
            zcase,
            drivers,
        ),
    ]
}
