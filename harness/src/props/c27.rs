//! C27 the driver's metrics about itself.
use super::drv::*;
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use futures::FutureExt;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

/// processed, dropped, instruments updated, enqueued, and how long it took
type Out = (u64, u64, u64, u64, u64);

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum MOp {
    Proc(Vec<Out>),
    /// how long it takes to show
    Snapper(u64),
    Snap(bool),
    Step(u8),
    Advance(u64),
    Pause,
    Resume,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct MCase {
    cfg: DCfg,
    ops: Vec<MOp>,
}
fn claim() -> impl Strategy<Value = u64> {
    prop_oneof![3 => Just(0u64), 2 => Just(1u64), 1 => 99u64..103, 4 => 1u64..200, 2 => 0u64..100_000, 1 => 0u64..10_000_000_000]
}
fn took() -> impl Strategy<Value = u64> {
    prop_oneof![4 => Just(0u64), 2 => 0u64..(20 * MS), 1 => 0u64..(10 * SEC)]
}
fn mcase() -> impl Strategy<Value = MCase> {
    let dropped = prop_oneof![4 => Just(0u64), 1 => claim()];
    let op = prop_oneof![
        3 => vec((claim(), dropped, claim(), claim(), took()), 0..8).prop_map(MOp::Proc),
        1 => took().prop_map(MOp::Snapper),
        5 => any::<bool>().prop_map(MOp::Snap),
        5 => (0u8..8).prop_map(MOp::Step),
        3 => prop_oneof![step(), (55u64..66).prop_map(|s| s * SEC), Just(60 * SEC)].prop_map(MOp::Advance),
        1 => Just(MOp::Pause),
        1 => Just(MOp::Resume),
    ];
    (dcfg(), vec(op, 1..40)).prop_map(|(cfg, ops)| MCase { cfg, ops })
}

#[derive(Debug, Clone, Copy)]
enum Ev {
    Run { id: usize, begin: u64, end: u64, out: Out },
    Shown { id: usize, begin: u64, end: u64 },
    /// the driver is let go on from its sleep
    Woken { at: u64 },
}
struct Worker {
    id: usize,
    claims: Vec<Out>,
    calls: usize,
    show: u64,
    log: Arc<Mutex<Vec<Ev>>>,
}
impl ProcessesTelemetryMessages for Worker {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        // then as it was last, but idle
        let idle = (0, 0, 0, self.claims.last().map(|c| c.3).unwrap_or(0), 0);
        let out = self.claims.get(self.calls).copied().unwrap_or(idle);
        self.calls += 1;
        let begin = vclock::now_ns();
        vclock::advance(out.4);
        self.log.lock().unwrap().push(Ev::Run { id: self.id, begin, end: vclock::now_ns(), out });
        ProcessingOutcome {
            processed: out.0 as usize,
            dropped: out.1 as usize,
            instruments_updated: out.2 as usize,
            observations_enqueued: out.3 as usize,
        }
    }
}
impl PutsSnapshot for Worker {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let begin = vclock::now_ns();
        vclock::advance(self.show);
        self.log.lock().unwrap().push(Ev::Shown { id: self.id, begin, end: vclock::now_ns() });
        // which look this is
        into.push(format!("w{}", self.id), self.log.lock().unwrap().len() as u64);
    }
}

fn spec(name: &str, kind: IKind) -> InstSpec {
    InstSpec { name: name.into(), title: None, desc: None, setters: false, twice: false, kind }
}
/// The documented instruments.
struct Own {
    collections: Model,
    times: Model,
    processed: Model,
    processed_h: Model,
    dropped: Model,
    dropped_h: Model,
    enqueued: Model,
    updated: Model,
    snaps: Model,
    snap_times: Model,
    alarm: Model,
    idle: Model,
    ratio: Model,
    ratio_h: Model,
}
impl Own {
    fn new(now: u64) -> Own {
        let meter = |n| Model::new(&spec(n, IKind::Meter(Rates { one: true, five: false, fifteen: false, cutoff: None })), now);
        let histo = |n| Model::new(&spec(n, IKind::Histogram { unit: Unit::Us, limit: None, reset: false, show: false }), now);
        let gauge = |n| Model::new(&spec(n, IKind::Gauge { track: Some(60), unit: Unit::Us, group: true, init: None, init_first: false }), now);
        Own {
            collections: meter("collections_per_second"),
            times: histo("collection_times_us"),
            processed: meter("observations_processed_per_second"),
            processed_h: histo("observations_processed_per_collection"),
            dropped: meter("observations_dropped_per_second"),
            dropped_h: histo("observations_dropped_per_collection"),
            enqueued: gauge("observations_enqueued"),
            updated: meter("instruments_updated_per_second"),
            snaps: meter("snapshots_per_second"),
            snap_times: histo("snapshots_times_us"),
            alarm: Model::new(&spec("dropped_observations_alarm", IKind::Staircase { off: None, invert: false, alt: None }), now),
            idle: Model::new(&spec("inactivity_alarm", IKind::NonOcc { within: None, invert: false, alt: None }), now),
            ratio: gauge("iteration_update_ratio_per_mille"),
            ratio_h: histo("iteration_update_ratio_per_mille_histo"),
        }
    }
    fn run(&mut self, begin: u64, end: u64, o: Out) {
        let v = |n: u64| Kind::Value(Val::U(n));
        self.collections.update(Kind::One, end);
        self.times.update(Kind::Value(Val::D(end - begin, Unit::Ns)), end);
        if o.0 > 0 {
            self.processed.update(Kind::Many(o.0), end);
            self.processed_h.update(v(o.0), end);
        }
        if o.1 > 0 {
            self.dropped.update(Kind::Many(o.1), end);
            self.dropped_h.update(v(o.1), end);
            self.alarm.update(Kind::One, end);
        }
        if o.0 > 0 || o.1 > 0 {
            self.idle.update(Kind::One, end);
        }
        if o.2 > 0 {
            self.updated.update(Kind::Many(o.2), end);
        }
        self.enqueued.update(v(o.3), end);
    }
    fn look(&mut self, begin: u64, end: u64) {
        self.snaps.update(Kind::One, end);
        self.snap_times.update(Kind::Value(Val::D(end - begin, Unit::Ns)), end);
    }
    /// an iteration that ended with the driver idle
    fn iteration(&mut self, run_ns: u64, iteration_ns: u64, end: u64) {
        if iteration_ns > 0 {
            let secs = |ns| std::time::Duration::from_nanos(ns).as_secs_f64();
            let per_mille = (secs(run_ns) / secs(iteration_ns) * 1000.0) as u64;
            self.ratio.update(Kind::Value(Val::U(per_mille)), end);
            self.ratio_h.update(Kind::Value(Val::U(per_mille)), end);
        }
    }
    fn expect(&mut self, now: u64) -> Level {
        let mut l = Level::default();
        for m in [
            &mut self.collections,
            &mut self.times,
            &mut self.processed,
            &mut self.processed_h,
            &mut self.dropped,
            &mut self.dropped_h,
            &mut self.enqueued,
            &mut self.updated,
            &mut self.snaps,
            &mut self.snap_times,
            &mut self.alarm,
            &mut self.ratio,
            &mut self.ratio_h,
            &mut self.idle,
        ] {
            m.expect(&mut l, false, now);
        }
        l
    }
}

fn metrics(c: &MCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    vclock::gate_close();
    let base = clean.0;
    let mut d = c.cfg.build();
    let log: Arc<Mutex<Vec<Ev>>> = Default::default();
    // worker 0 is there from the first run on: its runs are the driver's
    d.pause();
    rest(base)?;
    let mut ids = 0;
    let mut procs = vec![];
    let mut add = |d: &mut metrix::driver::TelemetryDriver, claims: Vec<Out>, show: u64, snapper: bool, procs: &mut Vec<usize>| {
        let w = Worker { id: ids, claims, calls: 0, show, log: log.clone() };
        if snapper {
            d.add_snapshooter(w);
        } else {
            d.add_processor(w);
            procs.push(ids);
        }
        ids += 1;
    };
    add(&mut d, vec![], 0, false, &mut procs);
    let steps = |n: usize| -> Res {
        for _ in 0..n {
            log.lock().unwrap().push(Ev::Woken { at: vclock::now_ns() });
            vclock::gate_step();
            rest(base)?;
        }
        Ok(())
    };
    // how many runs it did before it was paused is not known: none or one
    let mut early: Option<i128> = None;
    steps(5)?;
    d.resume();
    let (mut looks, mut dropped, mut processed, mut requests) = (0, 0u64, 0u64, 5usize);
    let (mut alarm_off, mut inactive) = (false, false);
    let mut ops = c.ops.clone();
    ops.push(MOp::Resume);
    ops.push(MOp::Step(10));
    ops.push(MOp::Snap(false));
    for op in &ops {
        match op {
            MOp::Proc(claims) => add(&mut d, claims.clone(), 0, false, &mut procs),
            MOp::Snapper(t) => add(&mut d, vec![], *t, true, &mut procs),
            MOp::Step(n) => {
                steps(*n as usize)?;
                continue;
            }
            MOp::Advance(n) => {
                vclock::advance(*n);
                continue;
            }
            MOp::Pause => d.pause(),
            MOp::Resume => d.resume(),
            MOp::Snap(desc) => {
                let mut f = d.snapshot_async(*desc).boxed();
                let mut n = 0;
                let s = loop {
                    steps(1)?;
                    if let Some(s) = (&mut f).now_or_never() {
                        break s.map_err(|_| "a snapshot was refused".to_string())?;
                    }
                    n += 1;
                    ensure!(n < 10 * requests + 100, "a snapshot is not answered");
                };
                requests += 1;
                looks += 1;
                let level = match &c.cfg.name {
                    Some(n) => sub(&s, n).ok_or_else(|| format!("no level {:?}", n))?,
                    None => &s,
                };
                // the events up to this look, run by run
                let upto = get(level, "w0").and_then(as_int).ok_or("worker 0 is not shown")? as usize;
                // and the looks of the others that belong to it
                let events = log.lock().unwrap().clone();
                let mut upto_all = upto;
                while let Some(Ev::Shown { id, .. }) = events.get(upto_all) {
                    if *id == 0 {
                        break;
                    }
                    upto_all += 1;
                }
                let events = &events[..upto_all];
                let Some(shown) = sub(level, "_metrix") else {
                    ensure!(!c.cfg.metrics(), "driver metrics are enabled and not shown: {:?}", names(level));
                    continue;
                };
                ensure!(c.cfg.metrics(), "driver metrics are disabled and shown");
                let mut own = Own::new(vclock::START_NS);
                let runs = events.iter().filter(|e| matches!(e, Ev::Run { id: 0, .. })).count() as i128;
                // how many runs it did before worker 0 was there
                let n = match early {
                    Some(n) => n,
                    None => get_path(shown, &["collections_per_second", "count"]).and_then(as_int).ok_or("no count of collections")? - runs,
                };
                ensure!((0..=3).contains(&n), "{} more collections are counted than the {} that were done", n, runs);
                early = Some(n);
                for _ in 0..n {
                    own.run(vclock::START_NS, vclock::START_NS, (0, 0, 0, 0, 0));
                }
                let now = replay(&mut own, events);
                let sum = |f: fn(&Out) -> u64| events.iter().map(|e| if let Ev::Run { out, .. } = e { f(out) } else { 0 }).sum::<u64>();
                processed = sum(|o| o.0);
                dropped = sum(|o| o.1);
                let want = own.expect(now);
                alarm_off |= dropped > 0 && want.0.iter().any(|x| x.0 == "dropped_observations_alarm" && matches!(x.1, Exp::Bool(false)));
                inactive |= matches!(want.0.last(), Some((_, Exp::Bool(true))));
                let mut picked = Snapshot::default();
                for (n, _) in &want.0 {
                    let all: Vec<_> = shown.items.iter().filter(|x| x.0 == *n).collect();
                    ensure!(all.len() == 1, "{} is shown {} times: {:?}", n, all.len(), names(shown));
                    picked.push(n.clone(), all[0].1.clone());
                }
                compare("_metrix", &picked, &want)?;
                continue;
            }
        }
        requests += 1;
    }
    no_foreign_panic()?;
    o.nontrivial_if(looks > 1 && processed > 0 && procs.len() > 1 && c.cfg.metrics());
    o.label_if(dropped > 0, "observations dropped");
    o.label_if(alarm_off, "alarm off again");
    o.label_if(inactive, "inactivity alarm");
    o.label_if(!c.cfg.metrics(), "disabled");
    Ok(())
}
/// returns the time of the last event
fn replay(own: &mut Own, events: &[Ev]) -> u64 {
    let (mut k, mut now) = (0, 0);
    // since when the iteration is going on, and the run it slept after
    let (mut since, mut slept) = (None, None);
    while k < events.len() {
        if let Ev::Woken { at } = events[k] {
            if let Some((from, run)) = slept.take() {
                own.iteration(run, at - from, at);
            }
            since = None;
            k += 1;
            continue;
        }
        let run = matches!(events[k], Ev::Run { .. });
        let (mut total, mut from, mut to) = ((0, 0, 0, 0, 0), None, 0);
        while let Some(e) = events.get(k) {
            let (id, begin, end, out) = match *e {
                Ev::Run { id, begin, end, out } if run => (id, begin, end, out),
                Ev::Shown { id, begin, end } if !run => (id, begin, end, (0, 0, 0, 0, 0)),
                _ => break,
            };
            if id == 0 && from.is_some() {
                break;
            }
            from = from.or(Some(begin));
            to = end;
            total = (total.0 + out.0, total.1 + out.1, total.2 + out.2, total.3 + out.3, 0);
            k += 1;
        }
        let from = from.unwrap();
        if run {
            own.run(from, to, total);
            let start = since.take().unwrap_or(from);
            // busy drivers go on at once
            if total.1 == 0 && total.0 <= 100 {
                if to - from < 10 * MS {
                    slept = Some((start, to - from));
                } else {
                    own.iteration(to - from, to - start, to);
                }
            }
        } else {
            own.look(from, to);
            since = Some(from);
        }
        now = to;
    }
    now
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct BareCase {
    cfg: DCfg,
    /// mounts without anything in them
    mounts: u8,
    /// steps before each snapshot, and whether it is asked for descriptives
    looks: Vec<(u8, u64, bool)>,
}
fn bare_case() -> impl Strategy<Value = BareCase> {
    (dcfg(), prop_oneof![2 => Just(0u8), 1 => 1u8..4], vec((0u8..12, prop_oneof![2 => Just(0), 1 => step()], any::<bool>()), 1..12))
        .prop_map(|(cfg, mounts, looks)| BareCase { cfg, mounts, looks })
}
fn bare(c: &BareCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    vclock::gate_close();
    let mut d = c.cfg.build();
    rest(clean.0)?;
    for _ in 0..c.mounts {
        d.add_processor(ProcessorMount::default());
    }
    let mut last = 0;
    for (k, (steps, gap, desc)) in c.looks.iter().enumerate() {
        for _ in 0..*steps {
            vclock::gate_step();
            rest(clean.0)?;
        }
        vclock::advance(*gap);
        let mut f = d.snapshot_async(*desc).boxed();
        let mut n = 0;
        let s = loop {
            vclock::gate_step();
            rest(clean.0)?;
            if let Some(s) = (&mut f).now_or_never() {
                break s.map_err(|_| "a snapshot was refused".to_string())?;
            }
            n += 1;
            ensure!(n < 200, "a snapshot is not answered");
        };
        let level = match &c.cfg.name {
            Some(n) => sub(&s, n).ok_or_else(|| format!("no level {:?}", n))?,
            None => &s,
        };
        let Some(shown) = sub(level, "_metrix") else {
            ensure!(!c.cfg.metrics(), "driver metrics are enabled and not shown: {:?}", names(level));
            continue;
        };
        ensure!(c.cfg.metrics(), "driver metrics are disabled and shown");
        let count = |name: &str| get_path(shown, &[name, "count"]).and_then(as_int).ok_or_else(|| format!("no count of {}", name));
        let want = k as i128 + 1;
        for name in ["snapshots_per_second", "snapshots_times_us"] {
            let n = count(name)?;
            ensure!(n == want, "{}: {} counted at snapshot {}", name, n, want);
        }
        let n = count("collections_per_second")?;
        let m = count("collection_times_us")?;
        ensure!(n == m, "{} collections are metered, the times of {} are known", n, m);
        // one of them per message that was received at most, with one step between them at least
        ensure!(n > last || k == 0, "nothing was collected between two snapshots: {} then {}", last, n);
        last = n;
        for name in ["observations_processed_per_second", "observations_dropped_per_second", "instruments_updated_per_second"] {
            let n = count(name)?;
            ensure!(n == 0, "{} is {} with nothing to observe", name, n);
        }
    }
    no_foreign_panic()?;
    o.nontrivial_if(c.looks.len() > 1 && c.cfg.metrics());
    o.label_if(c.cfg.name.is_none(), "unnamed driver");
    o.label_if(c.mounts > 0, "with empty mounts");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "metrics",
            "processors that claim generated outcomes and take generated time, snapshots that take time; the documented metrics at each snapshot compared in every value with instrument models fed with what the driver did; non-trivial: metrics enabled, looked at more than once, something processed by at least two processors",
            Clock::Global,
            5_000,
            60_000,
            mcase,
            metrics,
        ),
        facet(
            "empty",
            "drivers with nothing in them, or mounts with nothing in them: each snapshot counts itself and those before it, each collection is counted and timed, nothing is processed; non-trivial: metrics enabled, more than one snapshot",
            Clock::Global,
            1_000,
            10_000,
            bare_case,
            bare,
        ),
    ]
}
