//! C20 a driver ends with its last handle and answers or refuses every request.
use super::drv::*;
use super::hier::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use futures::FutureExt;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

struct Part {
    /// claims so much in its first runs
    busy: Vec<(u8, u8)>,
    /// claims that so much waits and was updated, always
    more: (u8, u8),
    calls: Arc<AtomicUsize>,
    gone: Arc<AtomicBool>,
}
impl Drop for Part {
    fn drop(&mut self) {
        self.gone.store(true, SeqCst);
    }
}
impl ProcessesTelemetryMessages for Part {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let n = self.calls.fetch_add(1, SeqCst);
        let (p, d) = self.busy.get(n).copied().unwrap_or((0, 0));
        ProcessingOutcome { processed: p as usize, dropped: d as usize, observations_enqueued: self.more.0 as usize, instruments_updated: self.more.1 as usize }
    }
}
impl PutsSnapshot for Part {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("part", self.calls.load(SeqCst) as u64);
    }
}

// ------------------------------------------------------------------ stop

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum SOp {
    Proc(Vec<(u8, u8)>, (u8, u8)),
    Snapper,
    Strategy(Strat),
    Pause,
    Resume,
    Async(bool),
    Step(u8),
    /// of handle
    Clone(u8),
    Drop(u8),
    /// a future nobody waits for any more
    Forget,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct SCase {
    cfg: DCfg,
    ops: Vec<SOp>,
}
/// observations enqueued and instruments updated
fn claims() -> impl Strategy<Value = (u8, u8)> {
    prop_oneof![2 => Just((0u8, 0u8)), 1 => any::<(u8, u8)>()]
}
fn scase() -> impl Strategy<Value = SCase> {
    let op = prop_oneof![
        3 => vec((prop_oneof![Just(0u8), Just(101), any::<u8>()], prop_oneof![3 => Just(0u8), 1 => 0u8..3]), 0..6).prop_flat_map(|b| claims().prop_map(move |m| SOp::Proc(b.clone(), m))),
        1 => Just(SOp::Snapper),
        1 => some_strat().prop_map(SOp::Strategy),
        2 => Just(SOp::Pause),
        1 => Just(SOp::Resume),
        4 => any::<bool>().prop_map(SOp::Async),
        4 => (0u8..5).prop_map(SOp::Step),
        2 => any::<u8>().prop_map(SOp::Clone),
        2 => any::<u8>().prop_map(SOp::Drop),
        1 => Just(SOp::Forget),
    ];
    (dcfg(), vec(op, 1..40)).prop_map(|(cfg, ops)| SCase { cfg, ops })
}
fn rest_or_end(base: usize) -> Result<bool, String> {
    let mut n = 0u32;
    loop {
        if vclock::parked_now(1) {
            return Ok(true);
        }
        n += 1;
        if n % 64 == 0 {
            vclock::real_sleep(std::time::Duration::from_micros(20));
        } else {
            std::thread::yield_now();
        }
        if n % 16 == 0 && tasks() <= base {
            return Ok(false);
        }
        if n % 4096 == 0 {
            no_foreign_panic()?;
        }
        ensure!(n < 500_000, "the driver's thread neither sleeps nor ends");
    }
}
fn stop(c: &SCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    vclock::gate_close();
    let base = clean.0;
    let mut handles = vec![c.cfg.build()];
    ensure!(rest_or_end(base)?, "the driver ended at once");
    let mut parts: Vec<(Arc<AtomicUsize>, Arc<AtomicBool>)> = vec![];
    let mut procs: Vec<usize> = vec![];
    let mut open = vec![];
    let (mut paused, mut requests, mut answered) = (false, 0usize, 0usize);
    let mut alive_after_drop = false;
    let step = |n: usize| -> Res {
        for _ in 0..n {
            vclock::gate_step();
            ensure!(rest_or_end(base)?, "the driver's thread ended while a handle exists");
        }
        Ok(())
    };
    for op in &c.ops {
        let n = handles.len();
        let at = |i: u8| i as usize % n;
        if handles.is_empty() {
            break;
        }
        let h = &mut handles[requests % n];
        match op {
            SOp::Proc(busy, more) => {
                let p = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
                h.add_processor(Part { busy: busy.clone(), more: *more, calls: p.0.clone(), gone: p.1.clone() });
                procs.push(parts.len());
                parts.push(p);
                requests += 1;
            }
            SOp::Snapper => {
                let p = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
                h.add_snapshooter(Part { busy: vec![], more: (0, 0), calls: p.0.clone(), gone: p.1.clone() });
                parts.push(p);
                requests += 1;
            }
            SOp::Strategy(s) => {
                h.change_processing_stragtegy(s.get());
                requests += 1;
            }
            SOp::Pause => {
                h.pause();
                paused = true;
                requests += 1;
            }
            SOp::Resume => {
                h.resume();
                paused = false;
                requests += 1;
            }
            SOp::Async(d) => {
                open.push(h.snapshot_async(*d).boxed());
                requests += 1;
            }
            SOp::Step(n) => step(*n as usize)?,
            SOp::Clone(i) => {
                let c = handles[at(*i)].clone();
                handles.push(c);
            }
            SOp::Drop(i) => {
                let i = at(*i);
                handles.remove(i);
                if !handles.is_empty() {
                    // still alive
                    alive_after_drop = true;
                    let f = handles[0].snapshot_async(false);
                    requests += 1;
                    step(requests + 12)?;
                    ensure!(matches!(f.now_or_never(), Some(Ok(_))), "no snapshot after one of several handles was dropped");
                    let before: Vec<usize> = procs.iter().map(|p| parts[*p].0.load(SeqCst)).collect();
                    step(12)?;
                    let idle = procs.iter().zip(&before).any(|(p, b)| parts[*p].0.load(SeqCst) <= *b);
                    ensure!(paused || !idle, "a processor is not run any more after one of several handles was dropped");
                    ensure!(parts.iter().all(|p| !p.1.load(SeqCst)), "a component was dropped while a handle exists");
                }
            }
            SOp::Forget => {
                open.pop();
            }
        }
        let mut still = vec![];
        for mut f in open.drain(..) {
            match (&mut f).now_or_never() {
                None => still.push(f),
                Some(Ok(_)) => answered += 1,
                Some(Err(_)) => ensure!(handles.is_empty(), "a snapshot is refused while a handle exists"),
            }
        }
        open = still;
    }
    let pending = open.len();
    let calls: Vec<usize> = procs.iter().map(|p| parts[*p].0.load(SeqCst)).collect();
    handles.clear();
    // comes to its end in a few iterations, no matter what it is at
    let mut n = 0;
    loop {
        vclock::gate_step();
        if !rest_or_end(base)? {
            break;
        }
        n += 1;
        ensure!(n <= 20 + requests, "the driver's thread is still there {} rests after the last handle was dropped", n);
    }
    no_foreign_panic()?;
    for (k, p) in procs.iter().enumerate() {
        let more = parts[*p].0.load(SeqCst) - calls[k];
        // it may have been in a run that never sleeps
        ensure!(more <= 20 + requests, "processor {} was run {} times after the last handle was dropped", k, more);
    }
    for (k, p) in parts.iter().enumerate() {
        ensure!(p.1.load(SeqCst), "component {} of {} is not released", k, parts.len());
    }
    let mut errors = 0;
    for mut f in open {
        match (&mut f).now_or_never() {
            None => return Err("a pending snapshot request is neither answered nor refused after the driver's end".into()),
            Some(Ok(_)) => answered += 1,
            Some(Err(_)) => errors += 1,
        }
    }
    o.nontrivial_if(parts.len() > 1 && (pending > 0 || alive_after_drop));
    o.label_if(paused, "paused at the end");
    o.label_if(errors > 0, "requests refused at the end");
    o.label_if(answered > 0, "requests answered");
    o.label_if(alive_after_drop, "one of several handles dropped");
    Ok(())
}

// ------------------------------------------------------------------ busy

/// Holds the driver inside a run until it is let go on.
#[derive(Default)]
struct Door {
    state: Mutex<(bool, bool)>, // (inside, open)
    cv: Condvar,
}
struct Blocker {
    door: Arc<Door>,
    calls: Arc<AtomicUsize>,
    stop_at: usize,
    outcome: (u8, u8),
    claims: (u8, u8),
    gone: Arc<AtomicBool>,
}
impl Drop for Blocker {
    fn drop(&mut self) {
        self.gone.store(true, SeqCst);
    }
}
impl ProcessesTelemetryMessages for Blocker {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let n = self.calls.fetch_add(1, SeqCst);
        if n == self.stop_at {
            let mut g = self.door.state.lock().unwrap();
            g.0 = true;
            self.door.cv.notify_all();
            while !g.1 {
                g = self.door.cv.wait(g).unwrap();
            }
        }
        ProcessingOutcome {
            processed: self.outcome.0 as usize,
            dropped: self.outcome.1 as usize,
            observations_enqueued: self.claims.0 as usize,
            instruments_updated: self.claims.1 as usize,
        }
    }
}
impl PutsSnapshot for Blocker {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("blocker", true);
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct BCase {
    cfg: DCfg,
    stop_at: u8,
    /// in every run: busy for ever if large
    outcome: (u8, u8),
    claims: (u8, u8),
    /// snapshots asked for while it is inside a run
    ask: u8,
    pause: bool,
    more: u8,
}
fn bcase() -> impl Strategy<Value = BCase> {
    let outcome = prop_oneof![Just((0u8, 0u8)), Just((200, 0)), Just((0, 1)), Just((101, 7)), any::<(u8, u8)>()];
    (dcfg(), 0u8..6, outcome, claims(), 0u8..5, any::<bool>(), 0u8..3)
        .prop_map(|(cfg, stop_at, outcome, claims, ask, pause, more)| BCase { cfg, stop_at, outcome, claims, ask, pause, more })
}
fn busy(c: &BCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut d = c.cfg.build();
    let (door, calls, gone) = (Arc::new(Door::default()), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
    let b = Blocker { door: door.clone(), calls: calls.clone(), stop_at: c.stop_at as usize, outcome: c.outcome, claims: c.claims, gone: gone.clone() };
    d.add_processor(b);
    let mut others = vec![];
    for _ in 0..c.more {
        let p = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
        d.add_processor(Part { busy: vec![], more: (0, 0), calls: p.0.clone(), gone: p.1.clone() });
        others.push(p);
    }
    let inside = || door.state.lock().unwrap().0;
    wait_until("the processor is run", inside)?;
    let open: Vec<_> = (0..c.ask).map(|i| d.snapshot_async(i % 2 == 0)).collect();
    if c.pause {
        d.pause();
    }
    drop(d);
    let before = calls.load(SeqCst);
    door.state.lock().unwrap().1 = true;
    door.cv.notify_all();
    ensure!(wait_ended(clean.0, 20_000), "the thread of a driver that was busy when its last handle was dropped does not end; {} runs since", calls.load(SeqCst) - before);
    no_foreign_panic()?;
    let more = calls.load(SeqCst) - before;
    ensure!(more <= 10 + c.ask as usize, "{} runs after the last handle was dropped", more);
    ensure!(gone.load(SeqCst) && others.iter().all(|p| p.1.load(SeqCst)), "components are not released");
    for f in open {
        ensure!(f.now_or_never().is_some(), "a request made in the last run is neither answered nor refused");
    }
    o.nontrivial_if(c.ask > 0 || c.outcome.0 > 100 || c.outcome.1 > 0);
    o.label_if(c.outcome.0 > 100 || c.outcome.1 > 0, "never sleeps");
    Ok(())
}

// ------------------------------------------------------------------ race

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct RCase {
    cfg: DCfg,
    /// per thread: what it does with its handle before it drops it
    threads: Vec<Vec<(u8, u16)>>,
    pause: bool,
    /// the harness drops its own handle first
    early: bool,
}
fn racecase() -> impl Strategy<Value = RCase> {
    (dcfg(), vec(vec((0u8..6, 0u16..2_000), 0..6), 1..5), any::<bool>(), any::<bool>())
        .prop_map(|(cfg, threads, pause, early)| RCase { cfg, threads, pause, early })
}
fn race(c: &RCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut d = c.cfg.build();
    let parts: Vec<_> = (0..3).map(|_| (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)))).collect();
    for (i, p) in parts.iter().enumerate() {
        let part = Part { busy: vec![(101, 0); i * 10], more: (i as u8, 1), calls: p.0.clone(), gone: p.1.clone() };
        if i < 2 {
            d.add_processor(part);
        } else {
            d.add_snapshooter(part);
        }
    }
    if c.pause {
        d.pause();
    }
    let (mut syncs, mut asyncs) = (0, 0);
    let mut handles = vec![];
    for script in &c.threads {
        let mut h = d.clone();
        let script = script.clone();
        handles.push(std::thread::spawn(move || -> Result<(usize, Vec<bool>), String> {
            vclock::mark_harness_thread();
            let mut open = vec![];
            let mut syncs = 0;
            for (k, spin) in script {
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                match k {
                    0 => {
                        let s = h.snapshot(spin % 2 == 0).map_err(|_| "a synchronous snapshot was refused while a handle exists".to_string())?;
                        ensure!(!s.items.is_empty(), "an empty snapshot");
                        syncs += 1;
                    }
                    1 | 2 => open.push(h.snapshot_async(false)),
                    3 => h = h.clone(),
                    4 => h.pause(),
                    _ => h.resume(),
                }
            }
            drop(h);
            // every request ends one way or the other
            Ok((syncs, open.into_iter().map(|f| futures::executor::block_on(f).is_ok()).collect()))
        }));
    }
    let mut d = Some(d);
    if c.early {
        d = None;
    }
    let mut refused = 0;
    let mut results = vec![];
    if d.is_some() {
        for h in handles {
            results.push(h.join().map_err(|_| "a caller panicked".to_string())??);
        }
        for r in &results {
            ensure!(r.1.iter().all(|x| *x), "an asynchronous snapshot was refused while a handle exists");
        }
        ensure!(!parts.iter().any(|p| p.1.load(SeqCst)), "a component was dropped while a handle exists");
        drop(d);
    } else {
        for h in handles {
            results.push(h.join().map_err(|_| "a caller panicked".to_string())??);
        }
    }
    for r in &results {
        syncs += r.0;
        asyncs += r.1.len();
        refused += r.1.iter().filter(|x| !**x).count();
    }
    ensure!(wait_ended(clean.0, 20_000), "the driver's thread does not end after the last handle was dropped");
    no_foreign_panic()?;
    ensure!(parts.iter().all(|p| p.1.load(SeqCst)), "components are not released");
    o.nontrivial_if(c.threads.len() > 1 && syncs + asyncs > 1);
    o.label_if(refused > 0, "requests refused at the end");
    o.label_if(syncs > 0, "synchronous snapshots");
    Ok(())
}

// ------------------------------------------------------------------ panics

/// A component that panics in its n-th run or snapshot.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Bad {
    run: Option<u8>,
    snap: Option<u8>,
    snapshooter: bool,
}
struct BadPart {
    bad: Bad,
    runs: usize,
    snaps: AtomicUsize,
    gone: Arc<AtomicBool>,
}
impl Drop for BadPart {
    fn drop(&mut self) {
        self.gone.store(true, SeqCst);
    }
}
impl ProcessesTelemetryMessages for BadPart {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.runs += 1;
        if self.bad.run == Some((self.runs - 1).min(255) as u8) {
            panic!("planned");
        }
        ProcessingOutcome::default()
    }
}
impl PutsSnapshot for BadPart {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let n = self.snaps.fetch_add(1, SeqCst);
        into.push("before", n as u64);
        if self.bad.snap == Some(n.min(255) as u8) {
            panic!("planned");
        }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct PanicCase {
    cfg: DCfg,
    parts: Vec<Bad>,
    /// per thread: what it does with its handle
    threads: Vec<Vec<(u8, u16)>>,
    /// the driver sits in another one
    nested: bool,
}
fn paniccase() -> impl Strategy<Value = PanicCase> {
    let n = || proptest::option::of(prop_oneof![Just(0u8), 0u8..6, 0u8..60]);
    let bad = (n(), n(), any::<bool>()).prop_map(|(run, snap, snapshooter)| Bad { run, snap, snapshooter });
    (dcfg(), vec(bad, 1..4), vec(vec((0u8..8, 0u16..2_000), 1..8), 1..4), prop_oneof![3 => Just(false), 1 => Just(true)])
        .prop_map(|(cfg, parts, threads, nested)| PanicCase { cfg, parts, threads, nested })
}
fn panics(c: &PanicCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut d = c.cfg.build();
    let outer = c.nested.then(|| {
        let mut outer = metrix::driver::TelemetryDriver::default();
        outer.add_processor(d.clone());
        outer
    });
    let mut gone = vec![];
    for b in &c.parts {
        gone.push(Arc::new(AtomicBool::new(false)));
        let part = BadPart { bad: b.clone(), runs: 0, snaps: AtomicUsize::new(0), gone: gone.last().unwrap().clone() };
        if b.snapshooter {
            d.add_snapshooter(part);
        } else {
            d.add_processor(part);
        }
    }
    let done = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for (i, script) in c.threads.iter().enumerate() {
        let mut h = match &outer {
            Some(outer) if i % 2 == 1 => outer.clone(),
            _ => d.clone(),
        };
        let (script, done) = (script.clone(), done.clone());
        let extra: Arc<AtomicBool> = Arc::default();
        gone.push(extra.clone());
        handles.push(std::thread::spawn(move || -> (usize, usize) {
            vclock::mark_harness_thread();
            struct Done(Arc<AtomicUsize>);
            impl Drop for Done {
                fn drop(&mut self) {
                    self.0.fetch_add(1, SeqCst);
                }
            }
            let _done = Done(done);
            let mut open = vec![];
            let (mut yes, mut no) = (0, 0);
            let mut count = |ok: bool| if ok { yes += 1 } else { no += 1 };
            for (k, spin) in script {
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                match k {
                    0..=2 => count(h.snapshot(spin % 2 == 0).is_ok()),
                    3 => open.push(h.snapshot_async(spin % 2 == 0)),
                    4 => h.pause(),
                    5 => h.resume(),
                    6 => h = h.clone(),
                    _ => h.change_processing_stragtegy(ProcessingStrategy::ProcessAll),
                }
            }
            h.add_snapshooter(BadPart { bad: Bad { run: None, snap: None, snapshooter: true }, runs: 0, snaps: AtomicUsize::new(0), gone: extra });
            // a last request, and all others, are answered or refused
            count(h.snapshot(false).is_ok());
            drop(h);
            open.into_iter().for_each(|f| count(futures::executor::block_on(f).is_ok()));
            (yes, no)
        }));
    }
    let planned = |p: Vec<String>| -> Result<usize, String> {
        let bad: Vec<_> = p.iter().filter(|p| !p.contains("planned")).collect();
        ensure!(bad.is_empty(), "panics other than the components' own: {:?}", bad);
        Ok(p.len())
    };
    let mut seen = 0;
    let start = vclock::real_ns();
    while done.load(SeqCst) < handles.len() {
        vclock::real_sleep(std::time::Duration::from_micros(50));
        ensure!(vclock::real_ns() - start < 20 * SEC, "a snapshot asked for from a driver with a component that panicked is neither answered nor refused");
    }
    let (mut yes, mut no) = (0, 0);
    for h in handles {
        let (y, n) = h.join().map_err(|_| "a caller panicked".to_string())?;
        yes += y;
        no += n;
    }
    drop(d);
    drop(outer);
    ensure!(wait_ended(clean.0, 20_000), "the thread of a driver with a component that panicked does not end after the last handle was dropped");
    seen += planned(take_foreign_panics())?;
    ensure!(gone.iter().all(|g| g.load(SeqCst)), "components are not released");
    ensure!(seen > 0 || no == 0 || c.nested, "a snapshot was refused though nothing panicked");
    o.nontrivial_if(seen > 0);
    o.label_if(yes > 0 && no > 0, "some answered, some refused");
    o.label_if(c.nested, "nested");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "stop",
            "up to 40 requests, handles cloned and dropped, the driver let run from rest to rest; after the last handle it must end within 20 rests (plus one per request made), release everything and leave no request open; non-trivial: at least two components, and requests pending at the end or one of several handles dropped before",
            Clock::Global,
            10_000,
            100_000,
            scase,
            stop,
        ),
        facet(
            "busy",
            "the last handle dropped while the driver is inside a run, also one that never sleeps; non-trivial: never sleeps or requests pending",
            Clock::Global,
            8_000,
            80_000,
            bcase,
            busy,
        ),
        facet(
            "race",
            "handles used and dropped by up to four threads at once; non-trivial: at least two threads and two snapshots",
            Clock::Global,
            10_000,
            100_000,
            racecase,
            race,
        ),
        facet(
            "panics",
            "drivers with components that panic in their n-th run or snapshot, asked by up to three threads; every request must be answered or refused, nothing else may panic, and the driver must still end and release everything; non-trivial: a component panicked",
            Clock::Global,
            8_000,
            80_000,
            paniccase,
            panics,
        ),
    ]
}
